//! K14 packets as streams of bytes
use crate::k1::reps;
use crate::model::*;
use fw::*;
use linkspace_pkt as lp;
use lp::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::io::{Error, ErrorKind, IoSlice, Result as IoResult, Write};

/// a writer that takes a few bytes at a time, is interrupted, or fails
struct Slow<'a> {
    got: Vec<u8>,
    plan: &'a [Step],
    at: usize,
    vectored: bool,
    room: usize,
}
#[derive(Clone, Copy, Debug)]
enum Step {
    Take(usize),
    Interrupted,
    All,
}
impl<'a> Slow<'a> {
    fn step(&mut self) -> Step {
        let s = if self.plan.is_empty() { Step::All } else { self.plan[self.at % self.plan.len()] };
        self.at += 1;
        // never interrupted forever
        match s {
            Step::Interrupted if self.at % 3 == 0 => Step::Take(1),
            s => s,
        }
    }
    fn take(&mut self, bufs: &mut dyn Iterator<Item = &[u8]>) -> IoResult<usize> {
        let mut n = match self.step() {
            Step::Take(n) => n.max(1),
            Step::All => usize::MAX,
            Step::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
        };
        n = n.min(self.room - self.got.len());
        let mut done = 0;
        for b in bufs {
            let k = b.len().min(n - done);
            self.got.extend_from_slice(&b[..k]);
            done += k;
        }
        if done == 0 && self.got.len() == self.room {
            return Err(Error::new(ErrorKind::Other, "full"));
        }
        Ok(done)
    }
}
impl<'a> Write for Slow<'a> {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.take(&mut std::iter::once(b))
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> IoResult<usize> {
        if !self.vectored {
            // like the default: the first slice that is not empty
            let b = b.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
            return self.write(b);
        }
        self.take(&mut b.iter().map(|b| &**b))
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
fn k14_write((m, plan, vectored, room): &(M, Vec<Step>, bool, usize), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let wire = p.byte_segments().to_bytes();
        let room = if room % 2 == 0 { usize::MAX } else { room % (wire.len() + 1) };
        reps(&p, &mut |name, q| {
            let mut w = Slow { got: vec![], plan, at: 0, vectored: *vectored, room };
            let r = q.byte_segments().write_into(&mut w);
            if room >= wire.len() {
                ensure!(r.is_ok(), "{name}: writing fails with {r:?}");
                ensure!(w.got[..] == wire[..], "{name}: written in pieces: {}", crate::k1::diff(&w.got, &wire));
            } else {
                ensure!(r.is_err(), "{name}: {} bytes written into {room}", wire.len());
                ensure!(w.got[..] == wire[..room], "{name}: written until full: {}", crate::k1::diff(&w.got, &wire[..room]));
            }
            Ok(())
        })?;
        o.class_if(room < wire.len(), "writer fills up");
        Ok(())
    });
    obs(m, o);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
fn k14_iter((m, cuts): &(M, Vec<usize>), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let wire = p.byte_segments().to_bytes();
        reps(&p, &mut |name, q| {
            let mut it = q.byte_segments();
            let mut at = 0;
            for c in cuts {
                let c = c % 90;
                for _ in 0..c {
                    let want = wire.get(at).copied();
                    ensure_eq!(it.next(), want, "{name}: byte {at}");
                    at = (at + 1).min(wire.len());
                }
                let left = &wire[at..];
                ensure_eq!((it.len(), it.size_hint(), it.is_empty()), (left.len(), (left.len(), Some(left.len())), left.is_empty()), "{name}: after {at} bytes");
                ensure!(it.clone().to_bytes()[..] == *left, "{name}: rest after {at} bytes");
                ensure_eq!(it.as_slice().concat(), left, "{name}: slices after {at} bytes");
                ensure_eq!(it.clone().io_slices().iter().flat_map(|s| s.to_vec()).collect::<Vec<u8>>(), left, "{name}: io slices after {at} bytes");
                let mut w = vec![0xeeu8; left.len() + 4];
                let end = unsafe { it.clone().write_segments_unchecked(w.as_mut_ptr()) };
                ensure_eq!(end as usize - w.as_ptr() as usize, left.len(), "{name}: end of the copy");
                ensure!(w[..left.len()] == *left && w[left.len()..] == [0xee; 4], "{name}: copy after {at} bytes");
            }
            Ok(())
        })
    });
    obs(m, o);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
fn k14_array((segs, k): &(Vec<Vec<u8>>, usize), o: &mut Obs) -> Res {
    let s = |i: usize| -> &[u8] { segs.get(i).map_or(&[], |v| &v[..]) };
    let b = match segs.len() {
        0 => ByteSegments::from_array([]),
        1 => ByteSegments::from_array([s(0)]),
        2 => ByteSegments::from_array([s(0), s(1)]),
        3 => ByteSegments::from_array([s(0), s(1), s(2)]),
        4 => ByteSegments::from_array([s(0), s(1), s(2), s(3)]),
        5 => ByteSegments::from_array([s(0), s(1), s(2), s(3), s(4)]),
        6 => ByteSegments::from_array([s(0), s(1), s(2), s(3), s(4), s(5)]),
        _ => ByteSegments::from_array([s(0), s(1), s(2), s(3), s(4), s(5), s(6)]),
    };
    let want: Vec<u8> = segs.iter().take(7).flatten().copied().collect();
    ensure_eq!(b.clone().collect::<Vec<u8>>(), want, "iterated");
    ensure_eq!((b.len(), b.is_empty()), (want.len(), want.is_empty()), "length");
    ensure_eq!(b.clone().to_bytes().to_vec(), want, "bytes");
    let mut it = b;
    let k = k % (want.len() + 2);
    let first: Vec<u8> = it.by_ref().take(k).collect();
    ensure_eq!((first, it.to_bytes().to_vec()), (want[..k.min(want.len())].to_vec(), want[k.min(want.len())..].to_vec()), "split at {k}");
    o.nontrivial(segs.len() > 1 && want.len() > 1);
    o.class_if(segs.iter().any(|s| s.is_empty()), "empty segment");
    Ok(())
}
pub fn props() -> Vec<Property> {
    let step = || prop_oneof![3 => (1usize..40).prop_map(Step::Take), 1 => (1usize..4000).prop_map(Step::Take), 1 => Just(Step::Interrupted), 1 => Just(Step::All)];
    vec![Property {
        id: "K14",
        rule: "the packet has a space, links or data / two or more segments",
        assumptions: &["a writer that accepts no byte and reports no error is not a case of its own (the standard library turns it into an error)"],
        subs: vec![
            sub("writers", 6_000, 300_000, move || (small(), vec(step(), 0..8), any::<bool>(), any::<usize>()), k14_write),
            sub("iterators", 4_000, 200_000, || (small(), vec(0usize..90, 1..6)), k14_iter),
            sub("segments", 100_000, 3_000_000, || (vec(vec(any::<u8>(), 0..5), 0..=7), any::<usize>()), k14_array),
        ],
    }]
}
