//! K05 spaces, K06 rooted spaces, K07 spaces as text
use crate::gen::styled;
use crate::model::*;
use byte_fmt::abe::{self, eval::EScope, scope::basic_scope, ToABE};
use fw::*;
use linkspace_pkt as lp;
use lp::{space_buf, RootedSpace, RootedSpaceBuf, Space, SpaceBuf, SpaceError, StaticSpace};
use proptest::collection::vec;
use proptest::prelude::*;

type C = Vec<u8>;
/// a component, now and then one that is not allowed
fn acomp() -> BoxedStrategy<C> {
    prop_oneof![
        12 => comp(),
        1 => Just(vec![]),
        1 => (197usize..=204, byte()).prop_map(|(n, b)| vec![b; n]),
        1 => (250usize..=600, byte()).prop_map(|(n, b)| vec![b; n]),
        3 => (20usize..=90, byte()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
enum Op {
    Push(C),
    PushFront(C),
    Prepend(Vec<C>),
    Append(Vec<C>),
    Join(Vec<C>),
    Extend(Vec<C>),
    TruncateLast,
    Pop,
    Tail,
    SplitLeft(u8),
    SplitRight(u8),
    Strip(u8),
    Fill,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => acomp().prop_map(Op::Push),
        4 => acomp().prop_map(Op::PushFront),
        2 => comps().prop_map(Op::Prepend),
        2 => comps().prop_map(Op::Append),
        1 => comps().prop_map(Op::Join),
        2 => vec(acomp(), 0..5).prop_map(Op::Extend),
        2 => Just(Op::TruncateLast),
        1 => Just(Op::Pop),
        1 => Just(Op::Tail),
        1 => (0u8..10).prop_map(Op::SplitLeft),
        1 => (0u8..10).prop_map(Op::SplitRight),
        1 => (0u8..10).prop_map(Op::Strip),
        2 => Just(Op::Fill),
    ]
    .boxed()
}
fn sp(c: &[C]) -> SpaceBuf {
    SpaceBuf::from_vec_unchecked(space_bytes(c))
}
fn own(it: impl IntoIterator<Item = impl AsRef<[u8]>>) -> Vec<C> {
    it.into_iter().map(|c| c.as_ref().to_vec()).collect()
}
/// everything a space shows about itself
fn shown(s: &Space, c: &[C]) -> Res {
    let b = space_bytes(c);
    ensure_eq!(s.space_bytes(), &b[..], "bytes");
    ensure_eq!(own(s.iter()), c, "components");
    ensure_eq!(own(s.to_array()), c, "array");
    ensure_eq!(s.check_components(), Ok(c.len() as u8), "check");
    ensure_eq!((s.size(), s.is_empty()), (b.len(), c.is_empty()), "size");
    ensure_eq!(s.head(), c.first().map(|c| &c[..]), "head");
    ensure_eq!(s.first(), c.first().map_or(&[][..], |c| &c[..]), "first");
    ensure_eq!(s.tail().space_bytes(), space_bytes(c.get(1..).unwrap_or(&[])), "tail");
    match s.split_first() {
        None => ensure!(c.is_empty(), "split_first finds nothing"),
        Some((h, t)) => {
            ensure!(!c.is_empty(), "split_first of nothing");
            ensure_eq!(h, c[0], "split_first head");
            ensure_eq!(t.space_bytes(), space_bytes(&c[1..]), "split_first tail");
        }
    }
    let init = &c[..c.len().saturating_sub(1)];
    ensure_eq!(s.parent().map(|p| p.space_bytes().to_vec()), (!c.is_empty()).then(|| space_bytes(init)), "parent");
    let (p, l) = s.pop();
    ensure_eq!(p.space_bytes(), space_bytes(init), "pop parent");
    ensure_eq!(l, c.last().map(|c| &c[..]), "pop last");
    let (p, l) = s.split_last();
    ensure_eq!(p.space_bytes(), space_bytes(init), "split_last parent");
    ensure_eq!(l.map(|l| l.space_bytes().to_vec()), c.last().map(|c| space_bytes(&[c.clone()])), "split_last");
    for n in 0..=c.len() + 2 {
        let (a, b) = s.split_at(n);
        let m = n.min(c.len());
        ensure_eq!((a.space_bytes(), b.space_bytes()), (&space_bytes(&c[..m])[..], &space_bytes(&c[m..])[..]), "split_at({n})");
    }
    let mut t = s.track();
    for n in 0..=c.len() {
        ensure_eq!(t.upto().space_bytes(), space_bytes(&c[..n]), "track upto {n}");
        ensure_eq!(t.rest().space_bytes(), space_bytes(&c[n..]), "track rest {n}");
        ensure_eq!(t.component(), c.get(n).map(|c| &c[..]), "track component {n}");
        ensure_eq!(t.full().space_bytes(), b, "track full");
        match t.next() {
            Some(n2) => t = n2,
            None => ensure_eq!(n, c.len(), "track ends"),
        }
    }
    let ch: Result<Vec<C>, SpaceError> = s.checked_iter().map_err(|e| format!("{e:?}"))?.map(|r| r.map(|c| c.to_vec())).collect();
    ensure_eq!(ch.as_deref(), Ok(c), "checked components");
    let own_: SpaceBuf = s.to_owned();
    ensure_eq!(own_.components(), Ok(c.to_vec()), "components of an owned space");
    ensure_eq!((own_.as_bytes(), own_.calc_depth()), (&b[..], c.len()), "an owned space");
    let (d, e): (&Space, &Space) = (&own_, own_.as_ref());
    ensure!(d == s && e == s && std::borrow::Borrow::<Space>::borrow(&own_) == s, "an owned space as a space");
    ensure!(std::borrow::Borrow::<[u8]>::borrow(&own_) == &b[..], "an owned space as bytes");
    let refs: Vec<&[u8]> = c.iter().map(|c| &c[..]).collect();
    ensure!(space_buf(&refs) == own_ && SpaceBuf::from_iter(c) == own_ && SpaceBuf::try_from(&refs[..]).as_ref() == Ok(&own_), "a space from its components");
    let mut at = 0;
    for n in 0..=c.len() {
        ensure_eq!(s.byte_slice(at).space_bytes(), space_bytes(&c[n..]), "byte_slice({at})");
        at += c.get(n).map_or(0, |c| c.len() + 1);
    }
    // every space on the way down; the documentation leaves open if the empty one is among them
    let mut scan: Vec<Vec<u8>> = s.scan_space().map(|s| s.space_bytes().to_vec()).collect();
    scan.retain(|s| !s.is_empty());
    ensure_eq!(scan, (1..=c.len()).map(|n| space_bytes(&c[..n])).collect::<Vec<_>>(), "scan_space");
    // a rooted one made from it
    let r = s.try_into_rooted().map_err(|e| format!("rooted: {e:?}"))?;
    ensure_eq!(r.rooted_bytes(), rooted_bytes(c), "rooted bytes");
    Ok(())
}
/// `got` is the result an operation must give: the components, or a refusal because they are not a space
fn apply(cur: &mut Vec<C>, next: Vec<C>, bad: bool, got: Result<SpaceBuf, SpaceError>, name: &str, o: &mut Obs) -> Res {
    let ok = !bad && valid_comps(&next);
    match (got, ok) {
        (Ok(s), true) => {
            ensure_eq!(s.space_bytes(), space_bytes(&next), "{name}");
            *cur = next;
        }
        (Err(_), false) => {
            o.class("refused");
            o.class_if(next.len() > MAX_DEPTH, "refused for depth");
            o.class_if(space_bytes(&next.iter().filter(|c| c.len() <= MAX_COMP).cloned().collect::<Vec<_>>()).len() > MAX_SPACE, "refused for size");
        }
        (g, _) => return Err(format!("{name} of {} components, {} bytes, valid {ok}: {:?}", next.len(), space_bytes(&next).len(), g.map(|g| g.space_bytes().to_vec())).into()),
    }
    Ok(())
}
fn k05_ops((start, ops): &(Vec<C>, Vec<Op>), o: &mut Obs) -> Res {
    let mut c = start.clone();
    shown(&SpaceBuf::try_from_iter(&c).map_err(|e| format!("start: {e:?}"))?, &c)?;
    for op in ops {
        let s = sp(&c);
        let n = c.len();
        let bad = |x: &C| x.is_empty() || x.len() > MAX_COMP;
        match op {
            Op::Push(x) => apply(&mut c, [&s_own(&s)[..], &[x.clone()]].concat(), bad(x), s.try_push(x), "push", o)?,
            Op::PushFront(x) => apply(&mut c, [&[x.clone()], &s_own(&s)[..]].concat(), bad(x), s.try_push_front(x), "push_front", o)?,
            Op::Prepend(x) => apply(&mut c, [&x[..], &s_own(&s)[..]].concat(), false, s.try_prepend(&sp(x)), "prepend", o)?,
            Op::Append(x) => apply(&mut c, [&s_own(&s)[..], x].concat(), false, s.try_append(&sp(x)), "append", o)?,
            Op::Join(x) => apply(&mut c, [&s_own(&s)[..], x].concat(), false, s.try_join(&sp(x)), "join", o)?,
            Op::Extend(x) => apply(&mut c, [&s_own(&s)[..], x].concat(), x.iter().any(bad), s.extend_from_iter(x), "extend", o)?,
            Op::TruncateLast => {
                let mut s = s;
                s.truncate_last();
                c.pop();
                ensure_eq!(s.space_bytes(), space_bytes(&c), "truncate_last");
            }
            Op::Pop => c = own(s.pop().0.iter()),
            Op::Tail => c = own(s.tail().iter()),
            Op::SplitLeft(k) => c = own(s.split_at(*k as usize).0.iter()),
            Op::SplitRight(k) => c = own(s.split_at(*k as usize).1.iter()),
            Op::Strip(k) => {
                let p = sp(&c[..(*k as usize).min(n)]);
                let r = s.strip_prefix(&p).ok_or("strip_prefix of its own start")?;
                c = own(r.iter());
            }
            Op::Fill => {
                // fill the space to its last byte, then one more
                let room = MAX_SPACE - s.size();
                if room >= 2 && room - 1 <= MAX_COMP && n < MAX_DEPTH {
                    let x = vec![b'z'; room - 1];
                    apply(&mut c, [&s_own(&s)[..], &[x.clone()]].concat(), false, s.try_push(&x), "fill", o)?;
                    o.class("full");
                    ensure!(sp(&c).try_push(b"a").is_err(), "pushing onto a full space");
                    ensure!(sp(&c).try_push_front(b"a").is_err(), "pushing in front of a full space");
                    ensure!(sp(&c).try_prepend(&sp(&[vec![1]])).is_err(), "prepending to a full space");
                }
            }
        }
        shown(&sp(&c), &c)?;
    }
    o.nontrivial(ops.len() > 1);
    o.class_if(c.len() == MAX_DEPTH, "8 components");
    Ok(())
}
fn s_own(s: &SpaceBuf) -> Vec<C> {
    own(s.iter())
}
fn k05_bytes(b: &Vec<u8>, o: &mut Obs) -> Res {
    let want = parse_space(b).filter(|c| c.len() <= MAX_DEPTH);
    let got = no_panic(|| Space::from_slice(b).map(|s| s.space_bytes().to_vec()))?;
    ensure_eq!(got.is_ok(), want.is_some(), "{b:?} as a space: {got:?}");
    let own_ = no_panic(|| SpaceBuf::try_from_inner(b.clone()).is_ok())?;
    ensure_eq!(own_, want.is_some(), "{b:?} as an owned space");
    // the checked iterator gives the components before the first fault, then the fault, then nothing
    if b.len() <= MAX_SPACE {
        let s = Space::from_unchecked(b);
        let mut it = s.checked_iter().map_err(|e| format!("{e:?}"))?;
        let mut rest = &b[..];
        let mut n = 0;
        loop {
            let w = rest.split_first().map(|(k, r)| {
                let k = *k as usize;
                if k > MAX_COMP {
                    Err(SpaceError::ComponentSize)
                } else if k == 0 {
                    Err(SpaceError::ZeroComponent)
                } else if k > r.len() {
                    Err(SpaceError::TailLength)
                } else {
                    Ok(&r[..k])
                }
            });
            let g = it.next();
            ensure_eq!(g, w, "checked component {n} of {b:?}");
            match w {
                Some(Ok(c)) => rest = &rest[c.len() + 1..],
                Some(Err(_)) => rest = &[],
                None => break,
            }
            n += 1;
        }
    }
    if let Some(c) = &want {
        shown(Space::from_slice(b).unwrap(), c)?;
    }
    o.class(if want.is_some() { "a space" } else { "not a space" });
    o.nontrivial(b.len() > 1);
    Ok(())
}
/// spaces made of arrays, as `space!` does
fn static_space((a, b): &(Vec<u8>, Vec<u8>), o: &mut Obs) -> Res {
    macro_rules! two {
        ($a:literal, $b:literal) => {{
            let (x, y): ([u8; $a], [u8; $b]) = (a[..$a].try_into().unwrap(), b[..$b].try_into().unwrap());
            let (px, py) = (lp::prefix_len(x), lp::prefix_len(y));
            ensure_eq!(px.to_vec(), space_bytes(&[x.to_vec()]), "prefix_len");
            let both = lp::concat_components(px, py);
            let c = [x.to_vec(), y.to_vec()];
            ensure_eq!(both.to_vec(), space_bytes(&c), "concat_components");
            let s = StaticSpace::from_raw(both);
            ensure!(lp::space!(&x, &y).as_bytes() == &both[..], "space!");
            shown(&s, &c)?;
            shown(s.as_ref(), &c)?;
            shown(&s.to_owned(), &c)?;
            shown(&s.into_spacebuf(), &c)?;
            let st: &'static StaticSpace<{ $a + $b + 2 }> = Box::leak(Box::new(s));
            shown(st.as_static(), &c)?;
            for bad in [{ let mut b = both; b[$a + 1] += 1; b }, { let mut b = both; b[$a + 1] = 0; b }, { let mut b = both; b[0] = 201; b }] {
                let r = no_panic(|| StaticSpace::from_raw(bad).size());
                ensure!(r.is_err(), "a static space of bytes that are none");
            }
        }};
    }
    two!(1, 1);
    two!(1, 7);
    two!(5, 3);
    two!(16, 32);
    two!(199, 41);
    o.nontrivial(a[..41] != b[..]);
    Ok(())
}
/// prefixes and order are those of the components
fn k05_rel((p, a, b): &(Vec<C>, Vec<C>, Vec<C>), o: &mut Obs) -> Res {
    let cut = |c: Vec<C>| {
        let mut c = c;
        while !valid_comps(&c) {
            c.pop();
        }
        c
    };
    let (x, y) = (cut([&p[..], a].concat()), cut([&p[..], b].concat()));
    let (sx, sy) = (sp(&x), sp(&y));
    let pre = x.len() >= y.len() && x[..y.len()] == y[..];
    ensure_eq!(sx.starts_with(&sy), pre, "starts_with {x:?} {y:?}");
    ensure_eq!(sx.strip_prefix(&sy).map(|s| own(s.iter())), pre.then(|| x[y.len()..].to_vec()), "strip_prefix {x:?} {y:?}");
    ensure_eq!(sx == sy, x == y, "equality");
    ensure_eq!(*sx.as_space() == *sy.as_space(), x == y, "equality");
    o.class_if(pre, "prefix");
    if valid_comps(&[&x[..], &y].concat()) {
        let j = sx.join(&sy);
        ensure_eq!(own(j.iter()), [&x[..], &y].concat(), "join");
        ensure_eq!(j.drop_prefix(&sx).space_bytes(), sy.space_bytes(), "the second part of a join");
        ensure!(j.split_at(x.len()) == (&*sx, &*sy), "splitting a join");
        ensure_eq!(sy.clone().try_prepend(&sx).ok().map(|s| s.space_bytes().to_vec()), Some(j.space_bytes().to_vec()), "prepend");
        let rj = sx.rooted().try_join(&sy).map_err(|e| format!("rooted join {e:?}"))?;
        ensure_eq!(rj.rooted_bytes().to_vec(), j.rooted().rooted_bytes().to_vec(), "rooted join");
        o.nontrivial(!x.is_empty() && !y.is_empty());
    }
    Ok(())
}
fn space_soup() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => comps().prop_map(|c| space_bytes(&c)),
        3 => (comps(), any::<u16>(), prop_oneof![any::<u8>(), 198u8..203, Just(0u8)]).prop_map(|(c, i, v)| { let mut b = space_bytes(&c); let n = b.len(); if n > 0 { b[i as usize % n] = v } b }),
        3 => (comps(), any::<u8>(), prop_oneof![any::<u8>(), 198u8..203, Just(0u8)]).prop_map(|(c, i, v)| { // a length byte
            let mut b = space_bytes(&c); if !c.is_empty() { let k: usize = c[..i as usize % c.len()].iter().map(|c| c.len() + 1).sum(); b[k] = v } b }),
        2 => vec(vec(byte(), 1..4), 6..12).prop_map(|c| space_bytes(&c)),
        2 => vec(acomp(), 0..10).prop_map(|c| space_bytes(&c)),
        1 => vec(prop_oneof![0u8..5, any::<u8>()], 0..40),
        1 => (comps(), 1usize..4).prop_map(|(c, k)| { let mut b = space_bytes(&c); let n = b.len(); b.truncate(n.saturating_sub(k)); b }),
        1 => (1u8..=120, 1u8..=122).prop_map(|(a, b)| space_bytes(&[vec![1; a as usize], vec![2; b as usize]])),
    ]
    .boxed()
}
fn k05() -> Property {
    Property {
        id: "K05",
        rule: "a history of two or more operations, two non-empty joined spaces, or arbitrary bytes longer than one",
        assumptions: &[],
        subs: vec![
            sub("history", 200_000, 1_000_000, || (comps(), vec(op(), 1..12)), k05_ops),
            sub("bytes", 400_000, 2_000_000, space_soup, k05_bytes),
            sub("static", 300, 2_000, || (vec(byte(), 199), vec(byte(), 41)), static_space),
            sub("relations", 200_000, 1_000_000, || (prop_oneof![Just(vec![]), comps()], prop_oneof![Just(vec![]), vec(comp(), 0..4)], prop_oneof![Just(vec![]), vec(comp(), 0..4)]), k05_rel),
        ],
    }
}
// ------------------------------------------------------------------ K06
fn rshown(r: &RootedSpace, c: &[C]) -> Res {
    ensure_eq!(r.check_components(), Ok(()), "check");
    ensure_eq!((r.depth(), *r.space_depth() as usize, r.is_empty()), (c.len(), c.len(), c.is_empty()), "depth");
    ensure_eq!(r.space().space_bytes(), space_bytes(c), "space");
    ensure_eq!(own(r.iter()), c, "components");
    ensure_eq!(r.last(), c.last().map_or(&[][..], |c| &c[..]), "last");
    let at = |i: usize| c.get(i).map_or(&[][..], |c| &c[..]);
    let named = [r.comp0(), r.comp1(), r.comp2(), r.comp3(), r.comp4(), r.comp5(), r.comp6(), r.comp7()];
    for i in 0..8 {
        ensure_eq!(r.comp(i), at(i), "component {i}");
        ensure_eq!(named[i], at(i), "named component {i}");
        ensure_eq!(r.comps_bytes()[i], at(i), "component bytes {i}");
        ensure_eq!(r.components()[i].space_bytes(), space_bytes(c.get(i..i + 1).unwrap_or(&[])), "component space {i}");
        for j in i..=8 {
            let (a, b) = (i.min(c.len()), j.min(c.len()));
            ensure_eq!(r.range(i..j).space_bytes(), space_bytes(&c[a..b]), "range {i}..{j}");
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum ROp {
    Append(C),
    Join(Vec<C>),
    Extend(Vec<C>),
    Fill,
}
fn k06_ops((start, ops): &(Vec<C>, Vec<ROp>), o: &mut Obs) -> Res {
    let mut c = start.clone();
    let mut r = RootedSpaceBuf::try_from_iter(&c).map_err(|e| format!("start {e:?}"))?;
    for op in ops {
        let before = r.clone();
        let bad = |x: &C| x.is_empty() || x.len() > MAX_COMP;
        let (add, res): (Vec<C>, Result<RootedSpaceBuf, SpaceError>) = match op {
            ROp::Append(x) => (vec![x.clone()], { let mut q = r.clone(); q.try_append_component(x).map(|_| ()).map(|_| q) }),
            ROp::Join(x) => (x.clone(), r.clone().try_join(&sp(x))),
            ROp::Extend(x) => (x.clone(), { let mut q = r.clone(); q.extend_from_iter(x).map(|_| q) }),
            ROp::Fill => {
                let room = MAX_SPACE - r.space().size();
                let k = room.saturating_sub(1).min(MAX_COMP);
                let x = vec![b'z'; k.max(1)];
                (vec![x.clone()], { let mut q = r.clone(); q.try_append_component(&x).map(|_| ()).map(|_| q) })
            }
        };
        let next = [&c[..], &add].concat();
        let ok = !add.iter().any(bad) && valid_comps(&next);
        match (res, ok) {
            (Ok(q), true) => {
                ensure_eq!(q.rooted_bytes(), rooted_bytes(&next), "bytes after adding {} components", add.len());
                c = next;
                r = q;
            }
            (Err(_), false) => {
                o.class("refused");
                o.class_if(next.len() > MAX_DEPTH, "refused for depth");
            }
            (g, _) => return Err(format!("adding to {} components: valid {ok}, got {g:?}", c.len()).into()),
        }
        // a refused single component leaves the space as it was
        if let ROp::Append(x) = op {
            let mut q = before.clone();
            if q.try_append_component(x).is_err() {
                ensure_eq!(q.rooted_bytes(), before.rooted_bytes(), "after a refused component");
            }
        }
        rshown(&r, &c)?;
        ensure!(*r.space() == *sp(&c).as_space(), "space of the rooted space");
        ensure_eq!(sp(&c).rooted().rooted_bytes().to_vec(), r.rooted_bytes().to_vec(), "rooted from the space");
        let back: RootedSpaceBuf = sp(&c).try_into().map_err(|e| format!("{e:?}"))?;
        ensure!(back == r, "converted");
        ensure!(RootedSpace::from(r.rooted_bytes()).is_ok(), "from its own bytes");
    }
    o.nontrivial(ops.len() > 1);
    o.class_if(c.len() == 8, "8 components");
    o.class_if(space_bytes(&c).len() == MAX_SPACE, "full");
    Ok(())
}
#[derive(Clone, Debug)]
enum Hurt {
    At(u16, u8),
    Idx(u8, u8),
    IdxBy(u8, i8),
    Len(u8, u8),
    Cut(u8),
    Add(Vec<u8>),
    Swap(u8, u8),
}
fn k06_bytes((c, hs): &(Vec<C>, Vec<Hurt>), o: &mut Obs) -> Res {
    let mut b = rooted_bytes(c);
    for h in hs {
        let n = b.len();
        match h {
            Hurt::At(i, v) if n > 0 => b[*i as usize % n] = *v,
            Hurt::Idx(i, v) if n >= 8 => b[*i as usize % 8] = *v,
            Hurt::IdxBy(i, v) if n >= 8 => b[*i as usize % 8] = b[*i as usize % 8].wrapping_add(*v as u8),
            Hurt::Len(i, v) if n > 8 => {
                let k: usize = c[..*i as usize % (c.len() + 1)].iter().map(|c| c.len() + 1).sum();
                if let Some(x) = b.get_mut(8 + k) {
                    *x = *v
                }
            }
            Hurt::Cut(k) => b.truncate(n.saturating_sub(*k as usize)),
            Hurt::Add(v) => b.extend(v),
            Hurt::Swap(i, j) if n >= 8 => b.swap(*i as usize % 8, *j as usize % 8),
            _ => {}
        }
    }
    let want = parse_rooted(&b);
    let got = no_panic(|| RootedSpace::from(&b).map(|_| ()))?;
    ensure_eq!(got.is_ok(), want.is_some(), "{b:?} as a rooted space: {got:?}");
    if let Some(w) = &want {
        no_panic(|| rshown(RootedSpace::from(&b).unwrap(), w)).map_err(|e| format!("{b:?}: {e}"))??;
    }
    o.class(if want.is_some() { "accepted" } else { "refused" });
    o.nontrivial(want.is_none());
    Ok(())
}
fn hurt() -> BoxedStrategy<Hurt> {
    prop_oneof![
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Hurt::At(a, b)),
        (any::<u8>(), prop_oneof![0u8..12, any::<u8>()]).prop_map(|(a, b)| Hurt::Idx(a, b)),
        (any::<u8>(), -3i8..=3).prop_map(|(a, b)| Hurt::IdxBy(a, b)),
        (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Hurt::Len(a, b)),
        (1u8..20).prop_map(Hurt::Cut),
        vec(any::<u8>(), 1..10).prop_map(Hurt::Add),
        (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Hurt::Swap(a, b)),
    ]
    .boxed()
}
fn k06() -> Property {
    Property {
        id: "K06",
        rule: "a history of two or more operations, or bytes that are refused",
        assumptions: &["eight zero bytes are taken as a rooted space without components, as the empty string is"],
        subs: vec![
            sub("history", 80_000, 400_000, || {
                (comps(), vec(prop_oneof![4 => acomp().prop_map(ROp::Append), 1 => comps().prop_map(ROp::Join), 1 => vec(acomp(), 0..5).prop_map(ROp::Extend), 1 => Just(ROp::Fill)], 1..10))
            }, k06_ops),
            sub("bytes", 600_000, 4_000_000, || (comps(), vec(hurt(), 0..4)), k06_bytes),
            sub("one-component", 10_000, 50_000, || vec(any::<u8>(), 199..=199), |v, _o| {
                // the constants made at compile time are the spaces made at run time
                macro_rules! t { ($($n:literal)*) => { $({
                    let mut a = [0u8; $n];
                    a.copy_from_slice(&v[..$n]);
                    let s = lp::rspace1(&a);
                    let s: &RootedSpace = s.as_ref();
                    ensure_eq!(s.rooted_bytes(), rooted_bytes(&[a.to_vec()]), "rspace1 of {} bytes", $n);
                })* } }
                t!(1 2 3 7 8 9 16 31 32 33 100 199);
                Ok(())
            }),
        ],
    }
}
// ------------------------------------------------------------------ K07
fn scope() -> impl abe::eval::Scope {
    (basic_scope(), EScope(lp::SpaceFE))
}
fn ev(t: &str) -> Result<Vec<u8>, String> {
    let a = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| format!("parse {t:?}: {e:?}"))?;
    let r = abe::eval::eval(&scope(), &a).map_err(|e| format!("eval {t:?}: {e:?}"))?;
    Ok(r.concat())
}
/// one component in one of the ways to write it
fn text_of(c: &[u8], how: u8, style: &[u8]) -> String {
    let hex: String = c.iter().map(|b| format!("{b:02x}")).collect();
    match how % 6 {
        0 | 1 => styled(c, style),
        2 => format!("[:{}]", styled(c, style)),
        3 if c.len() <= 16 && c[0] != 0 => format!("[b16:{hex}]"),
        5 => format!("[b:{}]", crate::refabe::b64url(c)),
        _ => styled(c, style),
    }
}
fn k07_text((c, hows, style): &(Vec<C>, Vec<u8>, Vec<u8>), o: &mut Obs) -> Res {
    let s = sp(c);
    let r = s.rooted();
    // the standard form
    let t = no_panic(|| s.to_string())?;
    ensure_eq!((s.as_space().to_string(), r.to_string(), (*r).to_string()), (t.clone(), t.clone(), t.clone()), "printed forms");
    let b: Result<SpaceBuf, _> = t.parse();
    ensure_eq!(b.map(|b| b.space_bytes().to_vec()).map_err(|e| format!("{e:?}")), Ok(space_bytes(c)), "reading {t:?}");
    let b: Result<RootedSpaceBuf, _> = t.parse();
    ensure_eq!(b.map(|b| b.rooted_bytes().to_vec()).map_err(|e| format!("{e:?}")), Ok(rooted_bytes(c)), "reading {t:?} as rooted");
    ensure!(t.bytes().all(|b| (0x20..0x7f).contains(&b)), "printed as {t:?}");
    // the expression form
    let e = abe::print_abe(s.to_abe());
    ensure_eq!(lp::space_str(&e).map(|b| b.space_bytes().to_vec()).map_err(|e| format!("{e:?}")), Ok(space_bytes(c)), "reading the expression {e:?}");
    let l = SpaceBuf::try_from(s.ablist()).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(l.space_bytes(), space_bytes(c), "through a list");
    // any other way to write it
    let mut txt = String::new();
    let mut empties = String::new();
    for (i, c) in c.iter().enumerate() {
        let h = hows[i % hows.len()];
        let t = text_of(c, h, style);
        txt += &format!("/{t}");
        empties += &format!("{}/{t}", "/".repeat((h / 7 % 3) as usize));
    }
    ensure_eq!(lp::space_str(&txt).map(|b| b.space_bytes().to_vec()).map_err(|e| format!("{e:?}")), Ok(space_bytes(c)), "reading {txt:?}");
    ensure_eq!(ev(&format!("[/{}]", if txt.is_empty() { "/" } else { &txt })), Ok(space_bytes(c)), "[/{txt}]");
    ensure_eq!(ev(&format!("[/~{empties}{}]", if style.len() % 2 == 0 { "/" } else { "" })), Ok(space_bytes(c)), "[/~{empties}]");
    if !c.is_empty() {
        let args: String = c.iter().enumerate().map(|(i, c)| format!(":{}", text_of(c, hows[i % hows.len()], style))).collect();
        ensure_eq!(ev(&format!("[s{args}]")), Ok(space_bytes(c)), "[s{args}]");
    }
    // and back to text
    let src = format!("b:{}", crate::refabe::b64url(&space_bytes(c)));
    ensure_eq!(ev(&format!("[{src}/?space]")), Ok(t.clone().into_bytes()), "?space");
    if !c.is_empty() {
        let enc = ev(&format!("[{src}/?:s]"))?;
        ensure_eq!(ev(std::str::from_utf8(&enc).map_err(|e| e.to_string())?), Ok(space_bytes(c)), "evaluating the encoding {:?}", String::from_utf8_lossy(&enc));
    }
    for (a, b) in [(0usize, 8usize), (0, 1), (1, 3), (2, 2), (7, 8), (8, 8), (hows[0] as usize % 9, 8), (0, style.len() % 9)] {
        if a > b {
            continue;
        }
        let w = space_bytes(&c[a.min(c.len())..b.min(c.len())]);
        ensure_eq!(ev(&format!("[{src}/si:{a}:{b}]")), Ok(w), "components {a} to {b}");
    }
    for a in 0..8usize {
        let w = space_bytes(c.get(a..a + 1).unwrap_or(&[]));
        ensure_eq!(ev(&format!("[{src}/si:{a}]")), Ok(w), "component {a}");
    }
    for bad in ["9", "9:12", "3:2", "x", "1:x", "-1", ""] {
        let r = no_panic(|| ev(&format!("[{src}/si:{bad}]")))?;
        ensure!(r.is_err() , "si:{bad} gives {r:?}");
    }
    // as data
    let v = serde::Serialize::serialize(s.as_space(), crate::mser::Ser).map_err(|e| e.to_string())?;
    let want = crate::mser::Val::Seq(c.iter().map(|c| crate::mser::Val::Str(abe::abtxt::as_abtxt(c).into_owned())).collect());
    ensure_eq!(v, want, "a space as data is the list of its components as text");
    ensure_eq!(v, serde::Serialize::serialize(&*r, crate::mser::Ser).map_err(|e| e.to_string())?, "serialised rooted space");
    o.nontrivial(c.len() > 1);
    o.class_if(c.iter().any(|c| c.len() == 16), "16 byte component");
    o.class_if(c.iter().any(|c| c.len() == 32), "32 byte component");
    o.class_if(c.len() == 8, "8 components");
    Ok(())
}
/// text that is not a space
fn k07_bad((c, at, what, style): &(Vec<C>, u8, u8, Vec<u8>), o: &mut Obs) -> Res {
    let mut parts: Vec<String> = c.iter().map(|c| format!("/{}", styled(c, style))).collect();
    let at = *at as usize % (parts.len() + 1);
    let name = match what % 9 {
        0 => { parts.insert(at, "/".into()); "empty component" }
        1 => { parts.push("/".into()); "trailing slash" }
        2 => { parts.insert(at, format!("/{}", "z".repeat(201))); "long component" }
        3 => { parts.insert(at, ":a".into()); "colon" }
        4 => { parts.insert(at, "\na".into()); "newline" }
        5 => { while parts.len() < 9 { parts.push("/q".into()) } "nine components" }
        6 => { parts.insert(at, "/[nosuchfunction:1]".into()); "failing expression" }
        7 => { parts.insert(at, "/é".into()); "not ascii" }
        _ => {
            if c.is_empty() { return Ok(()); }
            parts[0].remove(0);
            parts.push("/x".into());
            "no leading slash"
        }
    };
    let t: String = parts.concat();
    for (k, r) in [("space", no_panic(|| lp::space_str(&t).map(|s| s.to_string()).map_err(|e| format!("{e:?}")))?), ("rooted space", no_panic(|| t.parse::<RootedSpaceBuf>().map(|s| s.to_string()).map_err(|e| format!("{e:?}")))?)] {
        ensure!(r.is_err(), "{name}: {t:?} is read as the {k} {r:?}");
    }
    // text that does not start with '/' names another macro
    if !matches!(what % 9, 0 | 1) && t.starts_with('/') {
        let r = no_panic(|| ev(&format!("[/{t}]")))?;
        ensure!(r.is_err(), "{name}: [/{t}] gives {r:?}");
    }
    o.class(name);
    o.nontrivial(true);
    Ok(())
}
/// whatever the text, reading it gives a valid space or an error
fn k07_any(t: &String, o: &mut Obs) -> Res {
    let r = no_panic(|| lp::space_str(t)).map_err(|e| format!("reading {t:?}: {e}"))?;
    if let Ok(s) = r {
        let c = parse_space(s.space_bytes()).filter(|c| c.len() <= MAX_DEPTH).ok_or_else(|| format!("{t:?} is read as the bytes {:?}", s.space_bytes()))?;
        let again = lp::space_str(&s.to_string()).map_err(|e| format!("{e:?}"))?;
        ensure_eq!(again.space_bytes(), s.space_bytes(), "reading {t:?} printed as {}", s.to_string());
        o.class("a space");
        o.nontrivial(!c.is_empty());
    }
    let m = no_panic(|| ev(&format!("[/{t}]"))).map_err(|e| format!("[/{t}]: {e}"))?;
    if let Ok(b) = m {
        // an expression can close the bracket and go on, so only look at what cannot
        if !t.contains(['[', ']', '\\']) && t.starts_with('/') {
            ensure!(parse_space(&b).map_or(false, |c| c.len() <= MAX_DEPTH), "[/{t}] gives {b:?}");
        }
    }
    Ok(())
}
fn k07() -> Property {
    Property {
        id: "K07",
        rule: "a space of two or more components, or text that is refused",
        assumptions: &[],
        subs: vec![
            sub("forms", 40_000, 300_000, || (comps(), vec(any::<u8>(), 1..8), vec(any::<u8>(), 0..6)), k07_text),
            sub("refused", 100_000, 500_000, || (vec(vec(byte(), 1..6), 0..7), any::<u8>(), any::<u8>(), vec(any::<u8>(), 0..6)), k07_bad),
            sub("any", 300_000, 1_000_000, || prop_oneof![
                3 => vec(prop_oneof![6 => proptest::sample::select(vec!["/", "a", "[", "]", ":", "\\", "[:a]", "/b", "\\x00", "\\n", "[b:AA]", "[u8:1]", "[s:a]", "~", "//"]).prop_map(String::from)], 0..10).prop_map(|v| v.concat()),
                1 => "\\PC{0,20}",
                1 => "(/[a-z]{1,60}){0,10}",
            ], k07_any),
        ],
    }
}
pub fn props() -> Vec<Property> {
    vec![k05(), k06(), k07()]
}
