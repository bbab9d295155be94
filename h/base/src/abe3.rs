//! A10 encoding, A11 delimited lists, A12 configuration, A13 typed expressions, A17 help
use crate::abe2::*;
use crate::gen::*;
use crate::refabe::*;
use abe::abconf::{parse_ablist_b, ABConf};
use abe::ast::{Ctr, ABE};
use abe::eval::{self, ABItem, ABList, EvalScopeImpl, ScopeFuncInfo};
use abe::scope::BASIC_SCOPE;
use abe::{ABEValidator, ToABE, TypedABE};
use byte_fmt::endian_types::*;
use byte_fmt::{AB, B64};
use fw::{ensure, ensure_eq, sub, Fail, Obs, Property, Res};
use proptest::collection::vec;
use proptest::prelude::*;

// ------------------------------------------------------------------ A10
fn enc_bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => bytes(20),
        4 => prop::sample::select(vec![0usize, 1, 2, 4, 8, 15, 16, 17, 32]).prop_flat_map(|n| vec(prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8)], n..=n)),
        1 => (0usize..20, bytes(4)).prop_map(|(n, b)| [vec![0; n], b].concat()),
    ]
    .boxed()
}
fn encode((b, opts, ign): &(Vec<u8>, Vec<u8>, bool), o: &mut Obs) -> Res {
    let Ok(text) = std::str::from_utf8(opts) else { return Ok(()) };
    let want = crate::refabe::encode(&Both, b, opts, *ign);
    let scope = both();
    let got = eval::encode(&scope, b, text, *ign);
    if let Err(e) = &got {
        let _ = format!("{e} {e:?}");
    }
    let got = got.ok();
    ensure_eq!(got, want, "encoding {b:?} with {text:?} (ignore errors {ign})");
    if let Ok(l) = abe::parse_abe_strict_b(opts) {
        ensure_eq!(eval::encode_abe(&scope, b, &l, *ign).ok(), want, "encode_abe");
    }
    let one = |e: Vec<A>| -> Result<Option<Vec<u8>>, Fail> {
        let t = print(&e);
        let l = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| format!("{t}: {e}"))?;
        let got = eval::eval(&scope, &l).map(|l| l.concat()).ok();
        let want = eval_ref(&e);
        if got != want {
            return Err(format!("{t} gives {got:?} want {want:?}").into());
        }
        Ok(got)
    };
    if let Some(t) = &want {
        let l = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| format!("encoded text {t:?}: {e}"))?;
        let v = eval::eval(&scope, &l).map_err(|e| format!("encoded text {t:?}: {e}"))?;
        ensure!(v.as_exact_bytes().ok() == Some(&b[..]), "encoded text {t:?} of {b:?} evaluates to {v:?}");
        // [.. /? :opts] as a pipeline, and its stripped forms
    }
    for f in ["?", "??", "???"] {
        let e = vec![A::L(normal(&[COLON, A::B(b.clone()), SLASH, A::B(f.into()), COLON, A::B(opts.clone())]))];
        let r = one(e)?;
        if !*ign {
            ensure_eq!(r.is_some(), want.is_some(), "[../{f}:{text}] on {b:?} succeeds");
            if f == "?" {
                ensure_eq!(r.clone().map(|v| String::from_utf8_lossy(&v).into_owned()), want, "[../?:{text}]");
            }
        }
        if let (Some(t), "??", Some(w)) = (&r, f, &want) {
            // the stripped form is the full form without its brackets
            let again = [b"[".as_slice(), t, b"]"].concat();
            ensure!(t.as_slice() == w.as_bytes() || again == w.as_bytes(), "[../??] gave {t:?} for {w}");
        }
    }
    if let Ok(ol) = parse(opts, false) {
        for (m, i) in [("?", false), ("~?", true)] {
            let mut e = vec![SLASH, A::B(m.into()), COLON, A::B(b.clone()), SLASH];
            e.extend(ol.clone());
            let r = one(vec![A::L(normal(&e))])?;
            if i == *ign && !ol.is_empty() && normal(&ol) == ol {
                ensure_eq!(r.map(|v| String::from_utf8_lossy(&v).into_owned()), want, "[/{m}:..] of {b:?} with {text:?}");
            }
        }
    }
    o.nontrivial(want.is_some() && !opts.is_empty());
    o.class(match &want {
        None => "no encoding",
        Some(t) if t.starts_with("[b:") => "b",
        Some(t) if t.starts_with("[bs:") => "bs",
        Some(t) if t.starts_with("[a:") => "a",
        Some(t) if t.starts_with("[u") => "u",
        Some(t) if t.starts_with("[b2:") || t.starts_with("[b16:") => "b2/b16",
        Some(_) => "plain",
    });
    o.class_if(*ign, "errors ignored");
    Ok(())
}
fn eval_ref(l: &[A]) -> Option<Vec<u8>> {
    crate::refabe::eval(&Both, l).ok().map(|v| join(&v))
}
/// encoding the value of a program and evaluating it again gives the value
fn encode_program((p, opts): &(Vec<A>, Vec<u8>), o: &mut Obs) -> Res {
    take_too_big();
    let v = eval_ref(p);
    if take_too_big() || print(p).contains("help") {
        return Ok(());
    }
    let Some(v) = v else { return Ok(()) };
    encode(&(v, opts.clone(), false), o)
}

// ------------------------------------------------------------------ A11
fn items() -> BoxedStrategy<Vec<A>> {
    vec(prop_oneof![2 => Just(COLON), 2 => Just(SLASH), 3 => short_bytes().prop_map(A::B), 1 => bytes(6).prop_map(A::B), 1 => Just(A::B(vec![]))], 0..9).boxed()
}
fn item(a: &A) -> ABItem {
    match a {
        A::C(b':') => ABItem::Ctr(Ctr::Colon),
        A::C(_) => ABItem::Ctr(Ctr::FSlash),
        A::B(b) => ABItem::Bytes(b.clone()),
        A::L(_) => unreachable!(),
    }
}
fn logical(c: &[Comp]) -> Vec<Vec<u8>> {
    let mut o = vec![];
    if let Some((Some(_), _)) = c.first() {
        o.push(vec![])
    }
    o.extend(c.iter().map(|c| c.1.clone()));
    o
}
fn comps_of(l: &[A]) -> Vec<Comp> {
    collect_items(l.iter().map(|a| match a {
        A::C(c) => It::C(*c),
        A::B(b) => It::B(b.clone()),
        A::L(_) => unreachable!(),
    }))
}
fn print_comps(c: &[Comp]) -> String {
    c.iter().map(|(c, b)| c.map(|c| (c as char).to_string()).unwrap_or_default() + &esc(b)).collect()
}
fn check_list(l: &ABList, want: &[Comp], what: &str) -> Res {
    ensure_eq!(comps_real(l), want.to_vec(), "{what}");
    let text = print_comps(want);
    ensure_eq!(l.to_string(), text, "{what}: text");
    let delims = want.iter().filter(|c| c.0.is_some()).count();
    // views
    let want_items: Vec<A> = want.iter().flat_map(|(c, b)| c.map(A::C).into_iter().chain((!b.is_empty()).then(|| A::B(b.clone())))).collect();
    let un = |i: ABItem| match i {
        ABItem::Ctr(c) => A::C(c as u8),
        ABItem::Bytes(b) => A::B(b),
    };
    ensure_eq!(l.clone().items().map(un).collect::<Vec<_>>(), want_items, "{what}: items");
    ensure_eq!(
        l.item_refs().map(|i| match i {
            ABItem::Ctr(c) => A::C(c as u8),
            ABItem::Bytes(b) => A::B(b.to_vec()),
        }).collect::<Vec<_>>(),
        want_items,
        "{what}: item_refs"
    );
    let abes: Vec<ABE> = l.clone().into();
    ensure_eq!(from_reals(&abes), want_items, "{what}: as expression");
    ensure_eq!(from_reals(&l.clone().into_iter().collect::<Vec<_>>()), want_items, "{what}: into_iter");
    let back = ABList::try_from(&abes[..]).map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(back.to_string(), text, "{what}: through expression items");
    let again = parse_ablist_b(text.as_bytes()).map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(comps_real(&again), comps_of(&want_items), "{what}: reread");
    let ev = eval::eval(&BASIC_SCOPE, &abes).map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(comps_real(&ev), comps_of(&want_items), "{what}: evaluated");
    let lg = logical(want);
    ensure_eq!(l.iter_bytes().map(|b| b.to_vec()).collect::<Vec<_>>(), lg, "{what}: iter_bytes");
    ensure_eq!(l.clone().into_iter_bytes().collect::<Vec<_>>(), lg, "{what}: into_iter_bytes");
    ensure!(want.is_empty() || lg.len() == delims + 1, "{what}: {} components {} delimiters", lg.len(), delims);
    // joining
    let j = join(want);
    ensure_eq!(l.clone().concat(), j, "{what}: concat");
    let v: Vec<u8> = l.clone().into();
    ensure_eq!(v, j, "{what}: into bytes");
    // exactness
    let exact = (delims == 0).then(|| j.clone());
    ensure_eq!(l.as_exact_bytes().ok().map(|b| b.to_vec()), exact, "{what}: as_exact_bytes");
    match l.clone().into_exact_bytes() {
        Ok(b) => ensure_eq!(Some(b), exact, "{what}: into_exact_bytes"),
        Err(e) => {
            ensure!(exact.is_none(), "{what}: into_exact_bytes refused");
            ensure_eq!(comps_real(&e), want.to_vec(), "{what}: into_exact_bytes returns the list")
        }
    }
    ensure_eq!(l.is_empty(), delims == 0 && j.is_empty(), "{what}: is_empty");
    let mut p = l.clone();
    let f = p.pop_front().map(|(c, b)| (c.map(|c| c as u8), b));
    ensure_eq!(f, want.first().cloned(), "{what}: pop_front");
    ensure_eq!(comps_real(&p), want.iter().skip(1).cloned().collect::<Vec<_>>(), "{what}: after pop_front");
    ensure_eq!(l.len(), want.len(), "{what}: len");
    let _ = format!("{l:?}");
    Ok(())
}
fn lists((its, elems): &(Vec<A>, Vec<Vec<u8>>), o: &mut Obs) -> Res {
    let want = comps_of(its);
    let l = its.iter().fold(ABList::default(), |l, i| l.push(item(i)));
    check_list(&l, &want, "pushed")?;
    check_list(&its.iter().map(item).collect(), &want, "collected")?;
    let abes = to_reals(its);
    check_list(&ABList::try_from(&abes[..]).map_err(|e| format!("{e}"))?, &want, "from expression items")?;
    check_list(&eval::eval(&BASIC_SCOPE, &abes).map_err(|e| format!("{e}"))?, &want, "evaluated")?;
    let mut v = ABList::default();
    for (c, b) in &want {
        v.push_v((c.map(|c| if c == b':' { Ctr::Colon } else { Ctr::FSlash }), b.clone()));
    }
    check_list(&v, &want, "push_v")?;
    ensure!(v == l, "equal lists differ");
    if !its.is_empty() {
        let mut bad = abes.clone();
        bad.insert(its.len() / 2, to_real(&A::L(vec![])));
        ensure!(ABList::try_from(&bad[..]).is_err(), "a list with an unevaluated bracket was accepted");
    }
    for (c, f) in [(b':', eval::clist::<&[Vec<u8>], &Vec<u8>> as fn(_) -> ABList), (b'/', eval::flist::<&[Vec<u8>], &Vec<u8>>)] {
        let w: Vec<Comp> = elems.iter().enumerate().map(|(i, b)| ((i > 0).then_some(c), b.clone())).collect();
        let l = f(&elems[..]);
        check_list(&l, &w, "delimited list")?;
        ensure_eq!(l.iter_bytes().map(|b| b.to_vec()).collect::<Vec<_>>(), elems.clone(), "elements of the delimited list");
    }
    if let Some(e) = elems.first() {
        let w = vec![(None, e.clone())];
        check_list(&ABList::from(e.clone()), &w, "from bytes")?;
        check_list(&ABList::from(&e[..]), &w, "from slice")?;
    }
    o.nontrivial(want.len() >= 3);
    o.class_if(matches!(want.first(), Some((Some(_), _))), "leading delimiter");
    o.class_if(want.iter().any(|c| c.1.is_empty()), "empty component");
    o.class_if(want.len() >= 3, "3+ components");
    Ok(())
}

// ------------------------------------------------------------------ A12
const CN: &[&str] = &["", "a", "b", "ab", "x:", "\n"];
fn centry() -> BoxedStrategy<Vec<Comp>> {
    (
        prop::sample::select(CN.to_vec()),
        vec((prop::bool::weighted(0.85), prop::sample::select(CN.to_vec())), 0..4),
    )
        .prop_map(|(h, r)| {
            let mut o: Vec<Comp> = vec![];
            if !h.is_empty() {
                o.push((None, h.as_bytes().to_vec()))
            }
            o.extend(r.into_iter().map(|(c, b)| (Some(if c { b':' } else { b'/' }), b.as_bytes().to_vec())));
            o
        })
        .boxed()
}
fn to_ablist(c: &[Comp]) -> ABList {
    let mut l = ABList::default();
    for (c, b) in c {
        l.push_v((c.map(|c| if c == b':' { Ctr::Colon } else { Ctr::FSlash }), b.clone()))
    }
    l
}
#[derive(Debug, Clone)]
enum COp {
    Push(Vec<Comp>),
    Extend(Vec<Vec<Comp>>),
    Reread(bool),
}
fn cop() -> BoxedStrategy<COp> {
    prop_oneof![
        5 => centry().prop_map(COp::Push),
        2 => vec(centry(), 0..4).prop_map(COp::Extend),
        2 => any::<bool>().prop_map(COp::Reread),
    ]
    .boxed()
}
fn conf_entries(c: &ABConf) -> Vec<Vec<Comp>> {
    c.get_inner(&[]).map(|l| comps_real(l)).collect()
}
fn lookups(conf: &ABConf, model: &[Vec<Comp>], key: &[&[u8]], o: &mut Obs) -> Res {
    let n = key.len();
    // (entry, matched part has no '/', rest)
    let hits: Vec<(&Vec<Comp>, bool, Vec<Comp>)> = model
        .iter()
        .rev()
        .filter_map(|e| {
            let lg = logical(e);
            if lg.len() < n || lg[..n].iter().zip(key).any(|(a, b)| a != b) {
                return None;
            }
            let delims: Vec<u8> = e.iter().filter_map(|c| c.0).collect();
            let ok = delims[..n - 1].iter().all(|c| *c == b':');
            let rest = e[e.len() - (lg.len() - n)..].to_vec();
            Some((e, ok, rest))
        })
        .collect();
    let got: Vec<(bool, Vec<Comp>)> = conf
        .get_checked(key)
        .map(|r| match r {
            Ok(l) => (true, comps_real(l)),
            Err(l) => (false, comps_real(l)),
        })
        .collect();
    ensure_eq!(got, hits.iter().map(|h| (h.1, h.0.clone())).collect::<Vec<_>>(), "entries starting with {key:?}");
    ensure_eq!(conf.get_inner(key).map(|l| comps_real(l)).collect::<Vec<_>>(), hits.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), "inner entries starting with {key:?}");
    let want: Option<Result<Option<Vec<u8>>, Vec<Comp>>> = hits.first().map(|(e, ok, rest)| match (ok, &rest[..]) {
        (true, []) => Ok(None),
        (true, [(Some(b':'), v)]) => Ok(Some(v.clone())),
        _ => Err((*e).clone()),
    });
    let got = conf.has_optional_value(key).map(|r| r.map(|v| v.map(|b| b.to_vec())).map_err(|l| comps_real(l)));
    ensure_eq!(got, want, "optional value of {key:?} in {:?}", conf.to_string());
    if let [k] = key {
        let w = hits.first().map(|h| (h.1, h.0.clone()));
        let g = conf.get(k).map(|r| match r {
            Ok(l) => (true, comps_real(l)),
            Err(l) => (false, comps_real(l)),
        });
        ensure_eq!(g, w, "get {k:?}");
    }
    o.class(match want {
        None => "absent",
        Some(Ok(None)) => "present without value",
        Some(Ok(Some(_))) => "value",
        Some(Err(_)) => "other shape",
    });
    o.class_if(hits.len() > 1, "several matches");
    o.nontrivial(!hits.is_empty() && model.len() > 1);
    Ok(())
}
fn conf_history((ops, keys): &(Vec<COp>, Vec<Vec<&'static str>>), o: &mut Obs) -> Res {
    let mut conf = ABConf::default();
    let mut model: Vec<Vec<Comp>> = vec![];
    for op in ops {
        match op {
            COp::Push(e) => {
                conf.push(to_ablist(e));
                model.push(e.clone())
            }
            COp::Extend(v) => {
                conf.extend(v.iter().map(|e| to_ablist(e)).collect());
                model.extend(v.clone())
            }
            COp::Reread(head) => {
                let lines: String = model.iter().rev().map(|e| print_comps(e) + "\n").collect();
                ensure_eq!(conf.to_string(), lines, "configuration text");
                let t = if *head { ":%abctxt\n".to_string() + &lines } else { lines };
                conf = ABConf::try_from(t.as_bytes()).map_err(|e| format!("{t:?}: {e}"))?;
            }
        }
        ensure_eq!(conf_entries(&conf), model.iter().rev().cloned().collect::<Vec<_>>(), "entries after {op:?}");
    }
    let fresh = ABConf::new(model.iter().map(|e| to_ablist(e)).collect());
    ensure_eq!(conf_entries(&fresh), conf_entries(&conf), "same entries");
    let _ = format!("{conf:?}");
    for k in keys {
        let k: Vec<&[u8]> = k.iter().map(|s| s.as_bytes()).collect();
        lookups(&conf, &model, &k, o)?;
    }
    Ok(())
}
fn conf_text(t: &Vec<u8>, o: &mut Obs) -> Res {
    // reference reading
    let want: Option<Vec<Vec<Comp>>> = (|| {
        let mut t = &t[..];
        if let Some(r) = t.strip_prefix(b":%") {
            t = r.strip_prefix(b"abctxt\n")?;
        }
        if t.is_empty() {
            return Some(vec![]);
        }
        let t = t.strip_suffix(b"\n").unwrap_or(t);
        t.split(|c| *c == b'\n')
            .map(|l| {
                let l = parse(l, false).ok()?;
                l.iter().all(|a| !matches!(a, A::L(_))).then(|| comps_of(&l))
            })
            .collect()
    })();
    let got = ABConf::try_from(t).map_err(|e| {
        let _ = e.to_string();
    });
    ensure_eq!(got.as_ref().ok().map(conf_entries), want, "reading {:?}", String::from_utf8_lossy(t));
    if let (Ok(c), Some(w)) = (&got, &want) {
        let again = ABConf::try_from(c.to_string().as_bytes()).map_err(|e| e.to_string())?;
        ensure_eq!(conf_entries(&again), w.clone(), "written and read again");
        let m: Vec<Vec<Comp>> = w.iter().rev().cloned().collect();
        for e in w.iter().take(3) {
            let lg = logical(e);
            for n in 1..=lg.len().min(3) {
                let k: Vec<&[u8]> = lg[..n].iter().map(|b| b.as_slice()).collect();
                lookups(c, &m, &k, o)?;
            }
        }
    }
    o.class_if(want.is_none(), "refused");
    Ok(())
}
fn conf_text_strategy() -> BoxedStrategy<Vec<u8>> {
    let line = prop_oneof![3 => centry().prop_map(|e| print_comps(&e).into_bytes()), 1 => soup(), 1 => Just(vec![])];
    (prop::sample::select(vec!["", "", "", ":%abctxt\n", ":%abctxt", ":%", ":%abc\n", "\n"]), vec(line, 0..5), any::<bool>(), mutate())
        .prop_map(|(h, l, nl, m)| {
            let mut t = h.as_bytes().to_vec();
            t.extend(l.join(&b'\n'));
            if nl {
                t.push(b'\n')
            }
            if m.len() == 1 {
                apply_mut(&mut t, &m)
            }
            t
        })
        .boxed()
}

// ------------------------------------------------------------------ A13
trait Ty: ABEValidator + Clone {
    const NAME: &'static str;
    /// bytes of the value if `comps` is a value of the type
    fn want(c: &[Comp]) -> Option<Vec<u8>>;
    fn shape(l: &[A]) -> bool {
        l.iter().all(|a| !matches!(a, A::C(_)))
    }
    fn repr(&self) -> Vec<u8>;
    fn sample(b: &[u8]) -> Self;
    fn abe(&self) -> Option<(Vec<ABE>, String)>;
}
fn exact(c: &[Comp]) -> Option<Vec<u8>> {
    c.iter().all(|c| c.0.is_none()).then(|| join(c))
}
fn resize<const N: usize>(b: &[u8]) -> [u8; N] {
    std::array::from_fn(|i| if b.is_empty() { 0 } else { b[i % b.len()] })
}
macro_rules! ty_ab {
    ($($n:literal),*) => {$(
        impl Ty for AB<[u8; $n]> {
            const NAME: &'static str = concat!("AB", $n);
            fn want(c: &[Comp]) -> Option<Vec<u8>> {
                exact(c).filter(|b| b.len() <= $n).map(|b| [vec![0; $n - b.len()], b].concat())
            }
            fn repr(&self) -> Vec<u8> { self.0.to_vec() }
            fn sample(b: &[u8]) -> Self { AB(resize(b)) }
            fn abe(&self) -> Option<(Vec<ABE>, String)> { Some((self.to_abe(), self.to_abe_str())) }
        }
        impl Ty for B64<[u8; $n]> {
            const NAME: &'static str = concat!("B64_", $n);
            fn want(c: &[Comp]) -> Option<Vec<u8>> {
                let b = exact(c)?;
                b64url_dec(&b).filter(|v| v.len() == $n).or((b.len() == $n).then_some(b))
            }
            fn repr(&self) -> Vec<u8> { self.0.to_vec() }
            fn sample(b: &[u8]) -> Self { B64(resize(b)) }
            fn abe(&self) -> Option<(Vec<ABE>, String)> { Some((self.to_abe(), self.to_abe_str())) }
        }
    )*}
}
ty_ab!(1, 2, 4, 8, 16, 32);
macro_rules! ty_int {
    ($($t:ident $n:literal $le:literal),*) => {$(
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            fn want(c: &[Comp]) -> Option<Vec<u8>> {
                let mut b = exact(c)?;
                if $le { while b.len() < $n { b.push(0) } }
                (b.len() == $n).then_some(b)
            }
            fn repr(&self) -> Vec<u8> { self.0.to_vec() }
            fn sample(b: &[u8]) -> Self { $t(resize(b)) }
            fn abe(&self) -> Option<(Vec<ABE>, String)> { Some((self.to_abe(), self.to_abe_str())) }
        }
    )*}
}
ty_int!(U16 2 false, U32 4 false, U64 8 false, U128 16 false, LU16 2 true, LU32 4 true, LU64 8 true, LU128 16 true);
impl Ty for U8 {
    const NAME: &'static str = "U8";
    fn want(c: &[Comp]) -> Option<Vec<u8>> {
        exact(c).filter(|b| b.len() == 1)
    }
    fn repr(&self) -> Vec<u8> {
        vec![self.0]
    }
    fn sample(b: &[u8]) -> Self {
        U8(resize::<1>(b)[0])
    }
    fn abe(&self) -> Option<(Vec<ABE>, String)> {
        Some((self.to_abe(), self.to_abe_str()))
    }
}
impl Ty for String {
    const NAME: &'static str = "String";
    fn want(c: &[Comp]) -> Option<Vec<u8>> {
        exact(c).filter(|b| std::str::from_utf8(b).is_ok())
    }
    fn shape(l: &[A]) -> bool {
        l.len() == 1
    }
    fn repr(&self) -> Vec<u8> {
        self.clone().into_bytes()
    }
    fn sample(b: &[u8]) -> Self {
        String::from_utf8_lossy(b).into_owned()
    }
    fn abe(&self) -> Option<(Vec<ABE>, String)> {
        None
    }
}
impl Ty for Vec<u8> {
    const NAME: &'static str = "Vec";
    fn want(c: &[Comp]) -> Option<Vec<u8>> {
        Some(join(c))
    }
    fn shape(_: &[A]) -> bool {
        true
    }
    fn repr(&self) -> Vec<u8> {
        self.clone()
    }
    fn sample(b: &[u8]) -> Self {
        b.to_vec()
    }
    fn abe(&self) -> Option<(Vec<ABE>, String)> {
        None
    }
}
impl Ty for ABList {
    const NAME: &'static str = "ABList";
    fn want(c: &[Comp]) -> Option<Vec<u8>> {
        Some(print_comps(c).into_bytes())
    }
    fn shape(_: &[A]) -> bool {
        true
    }
    fn repr(&self) -> Vec<u8> {
        self.to_string().into_bytes()
    }
    fn sample(b: &[u8]) -> Self {
        b.into()
    }
    fn abe(&self) -> Option<(Vec<ABE>, String)> {
        None
    }
}
fn typed<T: Ty>(l: &[A], dflt: &[u8], o: &mut Obs) -> Res {
    let name = T::NAME;
    take_too_big();
    let value = crate::refabe::eval(&Both, l);
    if take_too_big() || print(l).contains("help") {
        return Ok(());
    }
    let scope = both();
    let text = print(l);
    let norm = normal(l);
    let shape = T::shape(l);
    let real = to_reals(l);
    let t = TypedABE::<T>::from(real.clone()).map_err(|e| {
        let _ = format!("{e} {e:?}");
    });
    ensure_eq!(t.is_ok(), shape, "{name}: shape of {text}");
    ensure_eq!(TypedABE::<T>::try_from(&real[..]).is_ok(), shape, "{name}: shape of {text} (slice)");
    ensure_eq!(TypedABE::<Vec<u8>>::from(real.clone()).unwrap().try_as::<T>().is_ok(), shape, "{name}: shape of {text} (try_as)");
    // from text
    let nshape = T::shape(&norm);
    let from_text = text.parse::<TypedABE<T>>().map_err(|_| ());
    ensure_eq!(from_text.as_ref().ok().map(|t| from_reals(&t.0)), nshape.then(|| norm.clone()), "{name}: reading {text}");
    ensure_eq!(TypedABE::<T>::try_from(text.as_bytes()).is_ok(), nshape, "{name}: reading bytes of {text}");
    // serialised
    let any = TypedABE::<T>::from_unchecked(real.clone());
    let ser = crate::mser::to(&any)?;
    for by_name in [false, true] {
        let de: Option<TypedABE<T>> = crate::mser::from(ser.clone(), by_name);
        ensure_eq!(de.map(|d| from_reals(&d.0)), shape.then(|| l.to_vec()), "{name}: serialised {text}");
    }
    let Ok(t) = t else {
        o.class("refused by shape");
        return Ok(());
    };
    ensure_eq!(t.to_string(), text, "{name}: printed");
    let _ = format!("{t:?}");
    ensure_eq!(from_reals(&t.clone().unwrap()), l.to_vec(), "{name}: unwrap");
    let want = value.as_ref().ok().and_then(|v| T::want(v));
    let got = t.eval(&scope).map_err(|_| ());
    ensure_eq!(got.as_ref().ok().map(|v| v.repr()), want.clone(), "{name}: value of {text}");
    let d = T::sample(dflt);
    let wd = match &value {
        Err(_) => None,
        Ok(v) if join(v).is_empty() => Some(d.repr()),
        Ok(_) => want.clone(),
    };
    ensure_eq!(t.eval_default(d, &scope).ok().map(|v| v.repr()), wd, "{name}: value or default of {text}");
    let many = eval::eval(&scope, &real).is_ok();
    ensure_eq!(abe::convert::eval_vec(vec![t.clone(), t.clone()], &scope).is_ok(), many && want.is_some(), "{name}: eval_vec");
    // values as expressions
    if let Ok(v) = got {
        if let Some((abe, s)) = v.abe() {
            let w = v.repr();
            let e1 = TypedABE::<T>::from(abe).map_err(|e| e.to_string())?;
            ensure_eq!(e1.eval(&scope).ok().map(|v| v.repr()), Some(w.clone()), "{name}: value as expression {e1}");
            let e2: TypedABE<T> = s.parse().map_err(|_| format!("{name}: cannot read {s}"))?;
            ensure_eq!(e2.eval(&scope).ok().map(|v| v.repr()), Some(w), "{name}: value as text {s}");
        }
    }
    o.class(match (&value, &want) {
        (Err(_), _) => "evaluation fails",
        (_, None) => "does not fit",
        _ => "value",
    });
    o.nontrivial(want.is_some() && print(l).contains('['));
    Ok(())
}
fn typed_all((l, d, k): &(Vec<A>, Vec<u8>, u8), o: &mut Obs) -> Res {
    match k {
        0 => typed::<AB<[u8; 1]>>(l, d, o),
        1 => typed::<AB<[u8; 2]>>(l, d, o),
        2 => typed::<AB<[u8; 4]>>(l, d, o),
        3 => typed::<AB<[u8; 8]>>(l, d, o),
        4 => typed::<AB<[u8; 16]>>(l, d, o),
        5 => typed::<AB<[u8; 32]>>(l, d, o),
        6 => typed::<B64<[u8; 1]>>(l, d, o),
        7 => typed::<B64<[u8; 2]>>(l, d, o),
        8 => typed::<B64<[u8; 4]>>(l, d, o),
        9 => typed::<B64<[u8; 8]>>(l, d, o),
        10 => typed::<B64<[u8; 16]>>(l, d, o),
        11 => typed::<B64<[u8; 32]>>(l, d, o),
        12 => typed::<U8>(l, d, o),
        13 => typed::<U16>(l, d, o),
        14 => typed::<U32>(l, d, o),
        15 => typed::<U64>(l, d, o),
        16 => typed::<U128>(l, d, o),
        17 => typed::<LU16>(l, d, o),
        18 => typed::<LU32>(l, d, o),
        19 => typed::<LU64>(l, d, o),
        20 => typed::<LU128>(l, d, o),
        21 => typed::<String>(l, d, o),
        22 => typed::<Vec<u8>>(l, d, o),
        _ => typed::<ABList>(l, d, o),
    }
}
const TYPES: u8 = 24;
/// expressions that mostly evaluate to something of the size wanted
fn sized_expr(k: u8) -> BoxedStrategy<Vec<A>> {
    let n: usize = match k {
        0 | 6 | 12 => 1,
        1 | 7 | 13 | 17 => 2,
        2 | 8 | 14 | 18 => 4,
        3 | 9 | 15 | 19 => 8,
        4 | 10 | 16 | 20 => 16,
        5 | 11 => 32,
        _ => 6,
    };
    let raw = prop_oneof![6 => Just(n), 1 => Just(n - 1), 1 => Just(n + 1), 2 => 0..=n].prop_flat_map(|n| vec(prop_oneof![3 => any::<u8>(), 1 => Just(b'a'), 1 => Just(0), 1 => Just(255)], n..=n));
    raw.prop_flat_map(move |b| {
        let call = |f: &str, a: Vec<u8>| vec![A::L(vec![A::B(f.into()), COLON, A::B(a)])];
        let b2 = b.clone();
        let forms: Vec<Vec<A>> = vec![
            vec![A::B(b.clone())],
            call("b", b64url(&b).into_bytes()),
            call("a", b.clone()).into_iter().map(|a| if let A::L(mut l) = a { l.push(COLON); l.push(A::B(n.to_string().into_bytes())); A::L(l) } else { a }).collect(),
            vec![A::B(b64url(&b).into_bytes())],
            vec![A::B(b[..b.len() / 2].to_vec()), A::L(vec![COLON, A::B(b[b.len() / 2..].to_vec())])],
            call(&format!("u{}", 8 * n.min(16)), un_be(&b).to_string().into_bytes()),
            call(&format!("lu{}", 8 * n.min(16)), un_be(&b).to_string().into_bytes()),
            vec![A::B(b.clone()), COLON],
            vec![COLON, A::B(b.clone())],
            vec![],
            vec![A::L(vec![])],
            vec![A::B(b.clone()), SLASH, A::B(b2)],
        ];
        prop::sample::select(forms)
    })
    .boxed()
}

// ------------------------------------------------------------------ A17
#[derive(Debug, Clone, PartialEq)]
struct Section {
    name: Option<String>,
    funcs: Vec<(String, bool, bool, bool, bool, String)>,
    macros: Vec<String>,
}
fn info(i: &ScopeFuncInfo) -> (String, bool, bool, bool, String) {
    (i.id.to_string(), i.init_eq != Some(false), i.init_eq != Some(true), i.to_abe, format!("{:?}", i.argc))
}
fn basic_sections() -> Vec<(String, Vec<(String, bool, bool, bool, String)>, Vec<String>)> {
    use abe::scope::*;
    macro_rules! s {
        ($($e:expr),*) => { vec![$( ($e.about().0, $e.list_funcs().iter().map(|f| info(&f.info)).collect(), $e.list_macros().iter().map(|m| m.info.id.to_string()).collect()) ),*] }
    }
    s!(BytesFE, UIntFE, BaseNScope, Comment, Help, LogicOps, Encode)
}
fn expected(n: &Node) -> Vec<(Option<String>, Vec<(String, bool, bool, bool, String)>, Vec<String>)> {
    let mut f = vec![];
    flat(n, &mut f);
    let mut out = vec![];
    for s in f {
        match s {
            Flat::Leaf(d) => out.push((
                Some(format!("leaf{}", d.n)),
                d.funcs.iter().map(|f| (f.id.to_string(), f.init != Some(false), f.init != Some(true), f.enc, format!("{:?}", f.lo..=f.hi))).collect(),
                d.macros.iter().map(|m| m.0.to_string()).collect(),
            )),
            Flat::Basic => out.extend(basic_sections().into_iter().map(|(n, f, m)| (Some(n), f, m))),
            Flat::Unit | Flat::Unset | Flat::Failed => out.push((None, vec![], vec![])),
        }
    }
    out
}
fn parse_help(t: &str) -> Vec<Section> {
    let mut out: Vec<Section> = vec![];
    let mut mac = false;
    for l in t.lines() {
        if let Some(n) = l.strip_prefix("# ") {
            out.push(Section { name: Some(n.into()), funcs: vec![], macros: vec![] });
            mac = false;
        } else if l == "## Functions" {
            mac = false
        } else if l == "## Macros" {
            mac = true
        } else if let (Some(r), Some(s)) = (l.strip_prefix("- "), out.last_mut()) {
            let id = r.get(..16).unwrap_or(r).trim_end().to_string();
            let rest = r.get(16..).unwrap_or("");
            if mac {
                s.macros.push(id)
            } else {
                let flags: Vec<char> = rest.chars().take(4).collect();
                let has = |c: char, i: usize| flags.get(i) == Some(&c);
                let argc = rest.split_whitespace().find(|w| w.contains("..=")).unwrap_or("").to_string();
                s.funcs.push((id, has('[', 1), has('/', 2), has('?', 3), rest.contains("<partial>"), argc));
            }
        }
    }
    out
}
fn help((n, ask): &(Node, &'static str), o: &mut Obs) -> Res {
    let exp = expected(n);
    let scope = build(n);
    let full = abe::scope::help::DisplayHelp(Ref(&*scope)).to_string();
    let got = parse_help(&full);
    ensure_eq!(got.len(), exp.len(), "number of scopes listed by {full}");
    let mut seen = std::collections::HashSet::new();
    let mut shadowed = 0;
    for (g, (name, funcs, macros)) in got.iter().zip(&exp) {
        if let Some(n) = name {
            ensure_eq!(g.name, Some(n.clone()), "name of a scope");
        }
        let want: Vec<_> = funcs
            .iter()
            .map(|(id, a, b, c, argc)| {
                let first = seen.insert(id.clone());
                shadowed += !first as u32;
                (id.clone(), *a, *b, *c, !first, argc.clone())
            })
            .collect();
        ensure_eq!(g.funcs, want, "functions (id, '[', '/', '?', partial, argc) of {name:?}");
        ensure_eq!(g.macros, *macros, "macros of {name:?}");
    }
    // asking from inside the language; Help must be in reach
    let s2 = (abe::eval::EScope(abe::scope::Help), Ref(&*scope));
    let run = |t: String| -> Result<String, Fail> {
        let l = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| e.to_string())?;
        let v = eval::eval(&s2, &l).map_err(|e| format!("{t}: {e}"))?;
        Ok(String::from_utf8_lossy(&v.concat()).into_owned())
    };
    let all = abe::scope::help::DisplayHelp(Ref(&s2)).to_string();
    ensure_eq!(run("[help]".into())?, all, "[help]");
    ensure_eq!(run("[/help]".into())?, all, "[/help]");
    ensure_eq!(parse_help(&all).len(), exp.len() + 1, "scopes under [help]");
    let one = run(format!("[help:{ask}]"))?;
    let mut sections = vec![(Some("help".to_string()), vec!["help".to_string()], vec!["help".to_string()])];
    sections.extend(exp.iter().map(|(n, f, m)| (n.clone(), f.iter().map(|f| f.0.clone()).collect(), m.clone())));
    let hit = sections.iter().find(|(_, f, m)| f.iter().any(|f| f == ask) || m.iter().any(|m| m == ask));
    match hit {
        None => ensure!(parse_help(&one).is_empty() && !one.is_empty(), "[help:{ask}] for an unknown name gives {one}"),
        Some((n, f, m)) => {
            let g = parse_help(&one);
            ensure_eq!(g.len(), 1, "sections shown by [help:{ask}]");
            ensure_eq!(g[0].name, *n, "[help:{ask}] scope");
            ensure_eq!(g[0].funcs.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), *f, "[help:{ask}] functions");
            ensure_eq!(g[0].macros, *m, "[help:{ask}] macros");
        }
    }
    o.nontrivial(exp.len() >= 2 && exp.iter().any(|e| !e.1.is_empty()));
    o.class_if(shadowed > 0, "shadowed function");
    o.class(if hit.is_some() { "name found" } else { "name unknown" });
    Ok(())
}
struct Ref<'o>(&'o dyn eval::Scope);
impl<'o> eval::Scope for Ref<'o> {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, s: &dyn eval::Scope) -> eval::ApplyResult {
        self.0.try_apply_func(id, a, init, s)
    }
    fn try_apply_macro(&self, id: &[u8], a: &[ABE], s: &dyn eval::Scope) -> eval::ApplyResult {
        self.0.try_apply_macro(id, a, s)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> eval::ApplyResult<String> {
        self.0.try_encode(id, o, b)
    }
    fn describe(&self, cb: eval::Describer) {
        self.0.describe(cb)
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "A10",
            rule: "an encoding counts when the option list is not empty and produces text",
            assumptions: &["b2 and b16 represent exactly the shortest big endian bytes of numbers up to 128 bits", "requested lengths above 1 MiB are out of scope"],
            subs: vec![
                sub("encode", 200_000, 6_000_000, || (enc_bytes(), opts_text(), any::<bool>()), encode),
                sub("single", 100_000, 3_000_000, || (enc_bytes(), prop::sample::select(ENCODERS.to_vec()).prop_map(|s| s.as_bytes().to_vec()), any::<bool>()), encode),
                sub("programs", 20_000, 1_000_000, || (program(3), opts_text()), encode_program),
            ],
        },
        Property {
            id: "A11",
            rule: "a list counts when it has three or more components",
            assumptions: &["an empty first component before a delimiter is the same list with or without an explicit empty byte run"],
            subs: vec![sub("lists", 200_000, 6_000_000, || (items(), vec(short_bytes(), 0..6)), lists)],
        },
        Property {
            id: "A12",
            rule: "a lookup counts when it finds an entry among several",
            assumptions: &["lookups name at least one component"],
            subs: vec![
                sub("history", 100_000, 4_000_000, || (vec(cop(), 0..7), vec(vec(prop::sample::select(CN.to_vec()), 1..4), 1..6)), conf_history),
                sub("texts", 100_000, 4_000_000, conf_text_strategy, conf_text),
            ],
        },
        Property {
            id: "A13",
            rule: "a case counts when the expression contains a bracket and has a value of the type",
            assumptions: &["requested lengths above 1 MiB are out of scope"],
            subs: vec![
                sub("sized", 200_000, 6_000_000, || (0..TYPES).prop_flat_map(|k| (sized_expr(k), bytes(8), Just(k))), typed_all),
                sub("programs", 60_000, 2_000_000, || (program(3), bytes(8), 0..TYPES), typed_all),
                sub("trees", 30_000, 1_000_000, || (tree(), bytes(8), 0..TYPES), typed_all),
            ],
        },
        Property {
            id: "A17",
            rule: "a case counts when at least two scopes are in reach and one has functions",
            assumptions: &["the layout of the help text (sections '# name', '## Functions', '## Macros', '- name') is fixed; wording is not checked"],
            subs: vec![sub("help", 40_000, 1_000_000, || (node(), prop::sample::select(vec!["f", "g", "k", "u8", "m", "or", "w", "help", "zzz", "slice", "?", "e", "eval"])), help)],
        },
    ]
}
