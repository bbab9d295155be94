//! Data from outside: the reader of `--data…` options, and the points the command line makes of it.
use crate::model::{self, Kind, M};
use crate::run::*;
use fw::*;
use linkspace_common::cli::reader::{CommonReadOpts, DataReadOpts, EMode};
use linkspace_core::prelude::CORE_SCOPE;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

// ------------------------------------------------------------------ the reader
#[derive(Clone, Copy, Debug, PartialEq)]
enum Over {
    Error,
    Split,
    Carry,
    Trim,
}
const OVERS: [Over; 4] = [Over::Error, Over::Split, Over::Carry, Over::Trim];
fn real(o: Over) -> EMode {
    match o {
        Over::Error => EMode::Error,
        Over::Split => EMode::Split,
        Over::Carry => EMode::Carry,
        Over::Trim => EMode::Trim,
    }
}
fn over_text(o: Over) -> &'static str {
    match o {
        Over::Error => "error",
        Over::Split => "split",
        Over::Carry => "carry",
        Over::Trim => "trim",
    }
}
/// pieces of data: as written, and what they evaluate to
const TOKENS: [(&str, &[u8]); 12] = [
    ("a", b"a"),
    ("bcd", b"bcd"),
    ("efghijklmn", b"efghijklmn"),
    ("\\x00", b"\0"),
    ("\\xff", b"\xff"),
    ("[u8:65]", b"A"),
    ("[u32:7]", b"\0\0\0\x07"),
    ("[a:x]", b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0x"),
    ("\\n", b"\n"),
    ("\\[", b"["),
    ("\\x2c", b","),
    ("[u8:44]", b","),
];
#[derive(Clone, Debug)]
struct Rd {
    /// the pieces, as indexes of tokens
    pieces: Vec<Vec<u8>>,
    ends: bool,
    delim: Option<u8>,
    size: Option<u16>,
    reads: Option<u8>,
    over: Over,
    eval: bool,
    repeat: bool,
    file: bool,
    free: Vec<u8>,
}
fn rd() -> BoxedStrategy<Rd> {
    (
        vec(vec(0u8..12, 0..5), 0..6),
        any::<bool>(),
        proptest::option::weighted(0.6, prop::sample::select(vec![b',', b';', 0u8, 255])),
        proptest::option::weighted(0.4, prop_oneof![1u16..12, 20u16..40, Just(1000)]),
        proptest::option::weighted(0.3, 0u8..7),
        prop::sample::select(OVERS.to_vec()),
        any::<bool>(),
        proptest::bool::weighted(0.25),
        any::<bool>(),
        vec(prop_oneof![2 => 1u8..6, 2 => 6u8..40, 1 => 40u8..255], 1..5),
    )
        .prop_map(|(pieces, ends, delim, size, reads, over, eval, repeat, file, free)| Rd { pieces, ends, delim, size, reads, over, eval, repeat, file, free })
        .boxed()
}
fn join(p: &[u8], eval: bool) -> Vec<u8> {
    p.iter().flat_map(|t| if eval { TOKENS[*t as usize].1.to_vec() } else { TOKENS[*t as usize].0.as_bytes().to_vec() }).collect()
}
/// what a source gives, read after read; None where the options leave the outcome open
struct Src {
    bytes: Vec<u8>,
    at: usize,
    repeat: bool,
}
impl Src {
    fn piece(&mut self, take: usize, delim: Option<u8>) -> Option<Vec<u8>> {
        if self.at == self.bytes.len() {
            if !self.repeat || self.bytes.is_empty() {
                return None;
            }
            self.at = 0;
        }
        let rest = &self.bytes[self.at..];
        let (n, skip) = match delim {
            None => (take.min(rest.len()), 0),
            Some(d) => match rest.iter().position(|b| *b == d) {
                Some(n) => (n, 1),
                None => (rest.len(), 0),
            },
        };
        self.at += n + skip;
        Some(rest[..n].to_vec())
    }
}
fn reader(c: &Rd, o: &mut Obs) -> Res {
    let text: Vec<Vec<u8>> = c.pieces.iter().map(|p| join(p, false)).collect();
    let mut bytes = vec![];
    let sep: &[u8] = match &c.delim {
        Some(d) => std::slice::from_ref(d),
        None => b"",
    };
    bytes.extend(text.join(sep));
    if c.ends && !text.is_empty() {
        bytes.extend(sep)
    }
    let free = |i: usize| c.free[i % c.free.len()] as usize;
    // a piece that does not fit in what one read takes is cut at a place of the reader's choice
    let longest = bytes.split(|b| Some(*b) == c.delim).map(|p| p.len()).max().unwrap_or(0);
    let least = c.size.map_or(c.free.iter().copied().min().unwrap() as usize, |n| n as usize);
    let whole = if c.delim.is_some() { longest <= least } else { bytes.len() <= least };
    if c.eval && !whole {
        o.class("left out: expressions cut in two");
        return Ok(());
    }
    let cut = c.delim.is_some() && !whole;
    if cut && !(c.over == Over::Split || (c.over == Over::Error && c.size.is_none())) {
        o.class("left out: pieces cut in two");
        return Ok(());
    }
    let dir = Dir::new();
    let as_file = c.file || c.repeat || std::str::from_utf8(&bytes).is_err();
    let common = if as_file {
        CommonReadOpts { data: Some(dir.file("in", &bytes).into()), data_repeat: c.repeat, ..Default::default() }
    } else {
        CommonReadOpts { data_str: Some(String::from_utf8(bytes.clone()).unwrap()), ..Default::default() }
    };
    if c.repeat && bytes.is_empty() {
        // an empty file cannot be mapped
        return Ok(());
    }
    let opts = DataReadOpts {
        common,
        data_delim: c.delim.map(|d| esc(&[d]).parse().unwrap()),
        data_bufsize: c.size.map(|s| s as usize),
        data_reads: c.reads.map(|r| r as usize),
        data_overflow: Some(real(c.over)),
        data_eval: c.eval,
    };
    let mut r = no_panic(|| opts.open_reader(false, &CORE_SCOPE))?.map_err(|e| fail_sig("open", format!("open: {e:#}")))?;
    let mut src = Src { bytes: bytes.clone(), at: 0, repeat: c.repeat };
    let mut reads = c.reads.map_or(usize::MAX, |r| r as usize);
    let mut rest: Option<Vec<u8>> = None;
    let eval = |b: &[u8]| -> Vec<u8> {
        if !c.eval {
            return b.to_vec();
        }
        let i = text.iter().position(|t| t == b);
        match i {
            Some(i) => join(&c.pieces[i], true),
            // several pieces at once, without a delimiter
            None => c.pieces.iter().flat_map(|p| join(p, true)).collect(),
        }
    };
    let mut got_all = vec![];
    let mut over = false;
    let mut n = 0;
    for i in 0..24 {
        let f = free(i);
        let mut buf = vec![];
        let got = no_panic(|| r.read_next_data(&CORE_SCOPE, f, &mut buf))?;
        if cut {
            // all of it arrives in order, unless pieces that are too long are an error
            match got {
                Ok(Some(())) => {
                    ensure!(buf.len() <= f, "read {i}: {} bytes for {f}", buf.len());
                    got_all.extend(buf);
                    n += 1;
                    continue;
                }
                Ok(None) => {
                    let want: Vec<u8> = bytes.iter().copied().filter(|b| Some(*b) != c.delim).collect();
                    let most = c.free.iter().copied().max().unwrap() as usize;
                    ensure!(c.reads.is_some() || c.over == Over::Split || longest <= most, "a piece of {longest} bytes is no error");
                    if c.reads.is_none() && !c.repeat {
                        ensure_eq!(got_all, want, "all that was read");
                    }
                    ensure!(c.repeat || want.starts_with(&got_all), "the start of the data: got {:?} of {:?}", got_all, want);
                }
                Err(e) => ensure!(c.over == Over::Error, "read {i}: {e:#}"),
            }
            break;
        }
        // the model
        let want = if c.over == Over::Split && rest.is_some() {
            rest.take()
        } else {
            let carried = rest.take();
            let piece = if reads == 0 {
                None
            } else {
                reads -= 1;
                src.piece(c.size.map_or(f, |s| s as usize), c.delim).map(|b| eval(&b))
            };
            if piece.is_none() {
                // nothing follows an end
                reads = 0;
            }
            match (carried, piece) {
                (Some(mut a), b) => {
                    a.extend(b.unwrap_or_default());
                    Some(a)
                }
                (None, b) => b,
            }
        };
        let mut fails = false;
        let want = want.map(|mut w| {
            if w.len() > f {
                over = true;
                match c.over {
                    Over::Error => fails = true,
                    Over::Trim => w.truncate(f),
                    _ => rest = Some(w.split_off(f)),
                }
            }
            w
        });
        match (got, want) {
            (Err(_), Some(_)) if fails => break,
            (Err(e), _) => return Err(format!("read {i}: {e:#}").into()),
            (Ok(_), Some(_)) if fails => return Err(format!("read {i}: more than {f} bytes are no error").into()),
            (Ok(None), None) => {
                // and it stays that way
                let mut b = vec![];
                let again = no_panic(|| r.read_next_data(&CORE_SCOPE, f, &mut b))?;
                ensure!(c.reads.is_some() || matches!(again, Ok(None)) , "more data after the end: {:?}", b);
                break;
            }
            (Ok(Some(())), Some(w)) => {
                ensure_eq!(buf, w, "read {i} of at most {f} bytes");
                n += 1;
            }
            (Ok(g), w) => return Err(format!("read {i}: got {g:?} {buf:?}, want {w:?}").into()),
        }
    }
    o.nontrivial(n > 1);
    o.class_if(over, "more than fits");
    o.class_if(over && c.over == Over::Carry, "carried over");
    o.class_if(over && c.over == Over::Split, "split");
    o.class_if(c.eval && n > 0, "evaluated");
    o.class_if(c.repeat && n > 0, "repeated");
    o.class_if(c.delim.is_some() && n > 1, "delimited");
    o.class_if(cut, "pieces longer than a read");
    Ok(())
}

/// the header of what was just made
pub fn head0() -> model::H {
    model::H { prefix: *b"LK1", flags: 0, hop: 0, stamp: u64::MAX, ubits: [0; 4] }
}
// ------------------------------------------------------------------ points
#[derive(Clone, Debug)]
struct Pt {
    m: M,
    style: u8,
    cmd: u8,
    pieces: Vec<Vec<u8>>,
    multi: bool,
    link: Option<u8>,
    dated: bool,
    to_file: bool,
}
fn pt() -> BoxedStrategy<Pt> {
    let piece = || vec(prop_oneof![8 => b'a'..b'z', 1 => Just(b'\\'), 1 => Just(b'['), 1 => any::<u8>()], 0..12).prop_map(|mut v| {
        v.retain(|b| *b != b'\n');
        v
    });
    let m = model::small().prop_map(|mut m| {
        if m.kind == Kind::Error {
            m.kind = Kind::Link
        }
        m.h = head0();
        m
    });
    (m, any::<u8>(), any::<u8>(), vec(piece(), 0..5), any::<bool>(), proptest::option::of(0u8..5), proptest::bool::weighted(0.8), any::<bool>())
        .prop_map(|(m, style, cmd, pieces, multi, link, dated, to_file)| Pt { m, style, cmd, pieces, multi, link, dated, to_file })
        .boxed()
}
fn make(c: &Pt, o: &mut Obs) -> Res {
    let d = Dir::new();
    let mut m = c.m.clone();
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as u64;
    let before = now();
    let mut args = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    let mut input = vec![];
    let linked = m.is_linked();
    if !linked {
        args.push(["datapoint", "d", "data", "point"][c.cmd as usize % 4].to_string());
    } else {
        let signed = matches!(m.kind, Kind::Key(_));
        let n = match (signed, c.cmd % 3) {
            (_, 0) if !c.multi => "point",
            (true, _) => ["keypoint", "keyp"][c.style as usize % 2],
            (false, _) => ["linkpoint", "link", "l"][c.style as usize % 3],
        };
        args.push(n.to_string());
        if signed && (n == "point" || c.style % 5 == 0) {
            args.push("--sign".into())
        }
    }
    let several = if linked { c.multi } else { true };
    // where the data comes from
    let mut datas: Vec<Vec<u8>> = vec![];
    let stream = !c.pieces.is_empty();
    if stream {
        args.push("--data-delim".into());
        args.push("\\n".into());
        if linked {
            args.push("--data-stdin".into());
        }
        for p in &c.pieces {
            input.extend(p);
            input.push(b'\n');
        }
        datas = c.pieces.clone();
        if !several {
            datas.truncate(1)
        }
    } else if !linked && c.cmd & 8 == 0 {
        // all of the standard input, in as few points as can be
        input = m.data.clone();
        if !input.is_empty() {
            datas.push(input.clone())
        }
    } else {
        args.extend(a(&["--data", &d.file("data", &m.data)]));
        if several {
            args.extend(a(&["--data-reads", "1"]));
        }
        // one read of an empty file finds its end
        if m.data.is_empty() {
            if linked {
                // no point to make: not a question here
                return Ok(());
            }
        } else {
            datas.push(m.data.clone())
        }
    }
    if linked && c.multi {
        args.push("--multi".into());
        if args[0] == "point" {
            return Ok(());
        }
        if let Some(t) = c.link {
            args.extend(a(&["--multi-link", &domain_text(&[t; 16], c.style)]));
        }
    }
    if linked && !c.dated {
        m.stamp = 0;
    }
    if c.to_file {
        args.extend(a(&["--write", &format!("file:{}", d.path("out"))]));
    }
    if linked {
        let mut p = point_args(&m, c.style);
        let sign = p.iter().position(|x| x == "--sign");
        if let Some(i) = sign {
            p.remove(i);
        }
        if !c.dated {
            p.drain(..2);
        }
        args.extend(p);
    }
    let r = lk(&d, &args, &input)?;
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    let after = now();
    let out = if c.to_file {
        ensure!(r.out.is_empty(), "lk {args:?}: something on stdout besides the file");
        d.read("out")
    } else {
        r.out
    };
    let got = split("making points", &out)?;
    ensure_eq!(got.len(), datas.len(), "{args:?}: number of points");
    let mut prev: Option<[u8; 32]> = None;
    for (i, data) in datas.iter().enumerate() {
        let mut w = m.clone();
        w.data = data.clone();
        if linked && !c.dated {
            let v = model::ref_read(&got[i], false).unwrap();
            ensure!(v.stamp >= before && v.stamp <= after, "{args:?}: made {before}..{after}, says {}", v.stamp);
            w.stamp = v.stamp;
        }
        if let (Some(t), Some(p), true) = (c.link, prev, c.multi) {
            w.links.push(([t; 16], p));
        }
        want.push(w.wire());
        // signatures differ from one time to the next only in nothing: they are deterministic
        ensure_eq!(model::ref_read(&got[i], false).unwrap().links, w.links_of(), "{args:?}: links of point {i}");
        ensure!(got[i][..] == want[i][..], "{args:?}: point {i} is {:?}, want {w:?}", model::ref_read(&got[i], false));
        prev = Some(got[i][32..64].try_into().unwrap());
    }
    o.nontrivial(!datas.is_empty());
    o.class_if(linked && c.multi && datas.len() > 1, "a series of points");
    o.class_if(linked && c.multi && datas.len() > 1 && c.link.is_some(), "a chain of points");
    o.class_if(matches!(m.kind, Kind::Key(_)) && !datas.is_empty(), "signed");
    o.class_if(linked && !c.dated, "made now");
    o.class_if(!m.links.is_empty() && linked, "with links");
    Ok(())
}
trait L {
    fn links_of(&self) -> Vec<([u8; 16], [u8; 32])>;
}
impl L for M {
    fn links_of(&self) -> Vec<([u8; 16], [u8; 32])> {
        if self.is_linked() {
            self.links.clone()
        } else {
            vec![]
        }
    }
}
/// data larger than a point: points as full as can be
fn large((n, over, link, extra): &(u32, u8, Option<u8>, u16), o: &mut Obs) -> Res {
    let d = Dir::new();
    let data: Vec<u8> = (0..*n).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8 & 0x7f).collect();
    let over = OVERS[*over as usize % 4];
    let m = M { kind: if link.is_some() { Kind::Link } else { Kind::Data }, h: head0(), group: [1; 32], domain: [2; 16], stamp: 9, comps: vec![b"x".to_vec()], links: (0..link.unwrap_or(0)).map(|i| ([i; 16], [i; 32])).collect(), data: vec![] };
    let room = model::MAX_POINT - m.size_fields();
    let args = |extra: Vec<String>| {
        let mut v = a(&[if link.is_some() { "link" } else { "data" }, "--data-stdin", "--data-overflow", over_text(over)]);
        v.extend(extra);
        if link.is_some() {
            v.push("--multi".into());
            v.extend(point_args(&m, 0));
        }
        v
    };
    let size = |p: &Vec<u8>| model::ref_read(p, false).unwrap().data;
    let cut = |l: Vec<&[u8]>| -> Vec<Vec<u8>> {
        l.into_iter().map(|c| {
            let mut w = m.clone();
            w.data = c.to_vec();
            w.wire()
        }).collect()
    };
    let check = |args: Vec<String>, want: Vec<Vec<u8>>| -> Res {
        let got = split("large data", &good(&d, &args, &data)?)?;
        ensure_eq!(got.iter().map(size).collect::<Vec<_>>(), want.iter().map(size).collect::<Vec<_>>(), "{args:?}: {n} bytes with room for {room}");
        ensure!(got == want, "{args:?}: other contents");
        Ok(())
    };
    check(args(vec![]), cut(data.chunks(room).collect()))?;
    // reads of more than fits
    let take = room + *extra as usize;
    let a2 = args(a(&["--data-bufsize", &take.to_string()]));
    let pieces: Vec<&[u8]> = data.chunks(take).collect();
    match over {
        Over::Error if pieces.iter().any(|p| p.len() > room) => {
            ensure!(!lk(&d, &a2, &data)?.ok, "{a2:?}: more data than fits is no error");
        }
        Over::Trim => check(a2, cut(pieces.iter().map(|p| &p[..p.len().min(room)]).collect()))?,
        Over::Split => check(a2, cut(pieces.iter().flat_map(|p| p.chunks(room)).collect()))?,
        Over::Error => check(a2, cut(pieces))?,
        Over::Carry => {
            let got = split("large data", &good(&d, &a2, &data)?)?;
            let all: Vec<u8> = got.iter().flat_map(|p| p[size(p)].to_vec()).collect();
            ensure!(all == data, "{a2:?}: the data is not what was read");
        }
    }
    o.nontrivial(*n as usize > room);
    o.class_if(*n as usize > room, "more than a point holds");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "M01",
            rule: "more than one block of data is read",
            assumptions: &["the reader is driven through the options the command line fills in", "a piece longer than one read takes is only judged for `error` and `split`"],
            subs: vec![sub("reader", 40_000, 2_000_000, rd, reader)],
        },
        Property {
            id: "M02",
            rule: "at least one point is made",
            assumptions: &["the `lk` program is built from /repo with stand-ins for clap, lmdb and other missing crates"],
            subs: vec![
                sub("points", 6_000, 200_000, pt, make),
                sub("large", 160, 4_000, || (prop_oneof![1 => 0u32..100, 4 => 60_000u32..140_000, 3 => (-80i64..80, 1u32..3).prop_map(|(d, k)| (k as i64 * 65_016 + d) as u32)], any::<u8>(), proptest::option::of(0u8..5), prop_oneof![0u16..100, 0u16..65_000]), large),
            ],
        },
    ]
}
