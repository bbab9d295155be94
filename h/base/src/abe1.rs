//! A01 text of bytes, A02 text of trees, A03 top-level split, A16 list helpers
use crate::gen::*;
use crate::refabe::*;
use abe::abtxt::*;
use abe::ast::*;
use fw::{ensure, ensure_eq, fixed, sub, Obs, Property, Res};
use proptest::collection::vec;
use proptest::prelude::*;

fn has_escape(b: &[u8]) -> bool {
    b.iter().any(|b| esc_byte(*b).len() > 1)
}

fn text_of_bytes(b: &Vec<u8>, o: &mut Obs) -> Res {
    let t = as_abtxt(b);
    let want = esc(b);
    ensure!(*t == *want, "as_abtxt({b:?}) = {t:?}, want {want:?}");
    ensure!(t.bytes().all(|c| (0x20..0x7f).contains(&c)), "not printable: {t:?}");
    let back = parse_abtxt_upto_max(&*t, b.len()).map_err(|e| format!("own text {t:?} rejected: {e}"))?;
    ensure_eq!(back, *b, "reading back {t:?}");
    if !b.is_empty() {
        ensure!(parse_abtxt_upto_max(&*t, b.len() - 1).is_err(), "{t:?} accepted although longer than the limit");
    }
    for n in [0, b.len() / 2, b.len().saturating_sub(1), b.len(), b.len() + 1, b.len() + 7] {
        let mut buf = vec![0x5a; n];
        let r = parse_abtxt_into(&*t, &mut buf);
        ensure_eq!(r.is_ok(), n >= b.len(), "fixed buffer of {n} for {} bytes", b.len());
        if let Ok(l) = r {
            ensure_eq!(l, b.len(), "length reported");
            ensure!(buf[..l] == b[..], "buffer holds {:?} want {b:?}", &buf[..l]);
            ensure!(buf[l..].iter().all(|x| *x == 0x5a), "bytes beyond the text were written");
        }
    }
    o.nontrivial(has_escape(b));
    o.class_if(b.iter().any(|b| esc_byte(*b).starts_with("\\x")), "hex escape");
    o.class_if(b.is_empty(), "empty");
    o.class_if(b.len() > 64, "long");
    Ok(())
}
fn text_accept((t, max): &(Vec<u8>, usize), o: &mut Obs) -> Res {
    let want = unesc(t);
    let got = parse_abtxt_upto_max(t, *max);
    let full = want.clone().filter(|w| w.len() <= *max);
    ensure_eq!(got.as_ref().ok(), full.as_ref(), "parse_abtxt_upto_max(max {max})");
    let got = parse_abtxt_upto_max(t, usize::MAX);
    ensure_eq!(got.as_ref().ok(), want.as_ref(), "parse_abtxt_upto_max(no limit)");
    let mut buf = vec![0u8; *max];
    let got = parse_abtxt_into(t, &mut buf);
    ensure_eq!(got.as_ref().ok().copied(), full.as_ref().map(|w| w.len()), "parse_abtxt_into");
    if let Some(w) = full {
        ensure!(buf[..w.len()] == w[..], "buffer content");
    }
    o.nontrivial(t.contains(&b'\\'));
    o.class(if want.is_some() { "valid" } else { "invalid" });
    o.class_if(want.map_or(false, |w| w.len() > *max), "over the limit");
    Ok(())
}
fn lexical_table() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for b in 0..=255u8 {
        v.push(vec![b]);
        v.push(vec![b'a', b]);
        v.push(vec![b'\\', b]);
        v.push(vec![b'\\', b, b'a']);
        v.push(vec![b'\\', b'x', b]);
        v.push(vec![b'\\', b'x', b, b'0']);
        v.push(vec![b'\\', b'x', b'3', b]);
        v.push(vec![b'\\', b'x', b'3', b'a', b]);
        v.push(format!("\\x{b:02x}").into_bytes());
        v.push(format!("\\x{b:02X}").into_bytes());
    }
    v
}
fn table_case(t: &Vec<u8>, o: &mut Obs) -> Res {
    text_accept(&(t.clone(), 8), o)?;
    if let [b] = t[..] {
        ensure_eq!(escape_default(b), esc_byte(b), "escape_default({b})");
        ensure_eq!(escaped_byte(b), esc_byte(b).len() > 1, "escaped_byte({b})");
        ensure_eq!(String::from_utf8_lossy(&hex_lookup(b)).into_owned(), format!("\\x{b:02x}"), "hex_lookup({b})");
        ensure_eq!(HEX_LOOKUP[b as usize], hex_lookup(b), "HEX_LOOKUP[{b}]");
        text_of_bytes(&vec![b], o)?;
        let ctr = b":/[]\n".contains(&b);
        ensure_eq!(CtrChar::try_from_char(b).map(|c| c.as_char()), ctr.then_some(b), "control character {b}");
        if let Some(c) = CtrChar::try_from_char(b) {
            ensure_eq!((c.is_bracket(), c.is_newline(), c.is_internal_delim()), (b == b'[' || b == b']', b == b'\n', b == b':' || b == b'/'), "kind of {b}");
        }
        // the tree parsers see the same alphabet
    }
    let strict = parse_abe_strict_b(t).ok().map(|l| from_reals(&l));
    ensure_eq!(strict, parse(t, false).ok(), "strict parse of {t:?}");
    let len = parse_abe_with_unencoded_b(t).ok().map(|l| from_reals(&l));
    ensure_eq!(len, parse(t, true).ok(), "lenient parse of {t:?}");
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------ A02
fn depth(l: &[A]) -> usize {
    l.iter().map(|a| if let A::L(l) = a { 1 + depth(l) } else { 0 }).max().unwrap_or(0)
}
fn tree_text((t, style): &(Vec<A>, Vec<u8>), o: &mut Obs) -> Res {
    let real = to_reals(t);
    let text = print_abe(&real);
    ensure_eq!(text, print(t), "printing");
    let n = normal(t);
    for (what, text) in [("canonical", text), ("styled", styled_print(t, style))] {
        let p = parse_abe_strict_b(text.as_bytes()).map_err(|e| format!("{what} text {text:?} rejected: {e}"))?;
        ensure_eq!(from_reals(&p), n, "parse of {what} text {text:?}");
        let p2 = parse_abe_with_unencoded_b(text.as_bytes()).map_err(|e| format!("lenient rejects {text:?}: {e}"))?;
        ensure!(p2 == p, "lenient parse differs on valid text {text:?}: {p2:?} vs {p:?}");
        for lenient in [false, true] {
            let p3 = parse_abe(&text, lenient).map_err(|e| format!("{e}"))?;
            let p4 = parse_abe_b(text.as_bytes(), lenient).map_err(|e| format!("{e}"))?;
            ensure!(p3 == p && p4 == p, "parse_abe({lenient}) differs on {text:?}");
        }
        ensure_eq!(print_abe(&p), print(&n), "printing the parsed tree");
    }
    o.nontrivial(depth(t) >= 1 && t.len() > 1);
    o.class_if(depth(t) >= 3, "depth>=3");
    o.class_if(n != *t, "not in normal form");
    o.class_if(has_escape(text_bytes(t).as_slice()), "escapes");
    Ok(())
}
fn text_bytes(t: &[A]) -> Vec<u8> {
    t.iter()
        .flat_map(|a| match a {
            A::C(_) => vec![],
            A::B(b) => b.clone(),
            A::L(l) => text_bytes(l),
        })
        .collect()
}
fn text_parse(t: &Vec<u8>, o: &mut Obs) -> Res {
    let strict = parse(t, false);
    let got = parse_abe_strict_b(t);
    ensure_eq!(got.as_ref().ok().map(|l| from_reals(l)), strict.clone().ok(), "strict parse of {:?}", String::from_utf8_lossy(t));
    let len = parse(t, true);
    let got2 = parse_abe_with_unencoded_b(t);
    ensure_eq!(got2.as_ref().ok().map(|l| from_reals(l)), len.clone().ok(), "lenient parse of {:?}", String::from_utf8_lossy(t));
    for (lenient, want) in [(false, &got), (true, &got2)] {
        let a = parse_abe_b(t, lenient).ok();
        ensure!(a == want.as_ref().ok().cloned(), "parse_abe_b({lenient}) differs on {t:?}");
    }
    if let Ok(l) = &got2 {
        let again = parse_abe_strict_b(print_abe(l).as_bytes()).map_err(|e| format!("printed tree rejected: {e}"))?;
        ensure!(again == *l, "print/parse of {l:?} gives {again:?}");
    }
    o.nontrivial(t.iter().any(|b| b"[]\\".contains(b)));
    o.class(match (&strict, &len) {
        (Ok(_), _) => "valid",
        (Err(_), Ok(_)) => "lenient only",
        _ => "invalid",
    });
    Ok(())
}
fn deep(d: &(u32, u32, u8), o: &mut Obs) -> Res {
    let (open, close, mid) = *d;
    let mut t = vec![b'['; open as usize];
    t.push(mid);
    t.extend(vec![b']'; close as usize]);
    o.nontrivial(true);
    let want = parse(&t, false);
    let got = parse_abe_strict_b(&t);
    ensure_eq!(got.as_ref().ok().map(|l| from_reals(l)), want.ok(), "{open} opening and {close} closing brackets");
    Ok(())
}

// ------------------------------------------------------------------ A03
type Comp3 = (u8, bool, Vec<u8>);
fn ref_tokens(t: &[u8], plain: u32, err: u32) -> Option<Vec<Comp3>> {
    let bit = |c: u8| match c {
        b'/' => 1,
        b':' => 2,
        b'\n' => 4,
        b'[' => 16,
        _ => 32,
    };
    let mut out = vec![];
    let (mut i, mut depth, mut head, mut inner) = (0, 0u32, 0u8, false);
    let mut cur = vec![];
    while let Some(r) = lex1(&t[i..]) {
        let (l, n) = r.ok()?;
        let raw = &t[i..i + n];
        i += n;
        match l {
            Lex::Ctr(c) if err & bit(c) != 0 => return None,
            Lex::Ctr(c) if plain & bit(c) == 0 => match c {
                b'[' => {
                    depth += 1;
                    inner = true;
                    cur.extend(raw)
                }
                b']' => {
                    if depth == 0 {
                        return None;
                    }
                    depth -= 1;
                    cur.extend(raw)
                }
                c if depth == 0 => {
                    out.push((head, inner, std::mem::take(&mut cur)));
                    inner = false;
                    head = c;
                }
                _ => cur.extend(raw),
            },
            _ => cur.extend(raw),
        }
    }
    if depth != 0 {
        return None;
    }
    if !cur.is_empty() {
        out.push((head, inner, cur));
    }
    Some(out)
}
fn split((t, plain, err): &(Vec<u8>, u32, u32), o: &mut Obs) -> Res {
    let want = ref_tokens(t, *plain, *err);
    let got: Result<Vec<Comp3>, _> = tokenize_abe_b(t, *plain, *err)
        .map(|r| r.map(|(c, i, b)| (c, i, b.to_vec())))
        .collect();
    ensure_eq!(got.as_ref().ok(), want.as_ref(), "tokenize({:?}, plain {plain:#b}, err {err:#b})", String::from_utf8_lossy(t));
    if let Ok(st) = std::str::from_utf8(t) {
        let s: Option<Vec<Comp3>> = tokenize_abe(st, *plain, *err)
            .ok()
            .map(|v| v.into_iter().map(|(c, i, b)| (c, i, b.as_bytes().to_vec())).collect());
        ensure_eq!(s, want, "tokenize_abe of str");
    }
    if let Some(w) = &want {
        let mut joined = vec![];
        for (i, (c, _, b)) in got.as_ref().unwrap().iter().enumerate() {
            if i > 0 {
                joined.push(*c)
            }
            joined.extend(b);
        }
        let mut orig = t.clone();
        if joined.len() < orig.len() {
            orig.pop();
        }
        ensure!(joined == orig, "joining {w:?} does not restore {t:?}");
    }
    o.nontrivial(want.as_ref().map_or(false, |w| w.len() >= 2));
    o.class(if want.is_some() { "accepted" } else { "rejected" });
    o.class_if(want.as_ref().map_or(false, |w| w.iter().any(|c| c.1)), "brackets");
    o.class_if(*plain != 0, "plain set");
    Ok(())
}

// ------------------------------------------------------------------ A16
fn ref_replace_abe(l: &[A], pat: &[A], new: &[A]) -> Vec<A> {
    let l: Vec<A> = l
        .iter()
        .map(|a| match a {
            A::L(l) => A::L(ref_replace_abe(l, pat, new)),
            a => a.clone(),
        })
        .collect();
    let mut out = vec![];
    let mut i = 0;
    while i < l.len() {
        if l.len() - i >= pat.len() && l[i..i + pat.len()] == *pat {
            out.extend(new.iter().cloned());
            i += pat.len();
        } else {
            out.push(l[i].clone());
            i += 1;
        }
    }
    out
}
fn small_tree() -> BoxedStrategy<Vec<A>> {
    let leaf = prop_oneof![
        Just(A::C(b':')),
        Just(A::C(b'/')),
        prop::sample::select(vec!["a", "b", "ab", ""]).prop_map(|s| A::B(s.into())),
    ];
    let node = leaf.prop_recursive(3, 20, 5, |i| vec(i, 0..=5).prop_map(A::L));
    vec(node, 0..=8).boxed()
}
fn replace((t, pat, new): &(Vec<A>, Vec<A>, Vec<A>), o: &mut Obs) -> Res {
    let mut l = to_reals(t);
    let want = ref_replace_abe(t, pat, new);
    replace_abe(&mut l, &to_reals(pat), &to_reals(new));
    ensure_eq!(from_reals(&l), want, "replace_abe({}, {} -> {})", print(t), print(pat), print(new));
    o.nontrivial(want != *t);
    o.class_if(want.len() != t.len(), "length changed");
    Ok(())
}
fn helpers(t: &Vec<A>, o: &mut Obs) -> Res {
    let l = to_reals(t);
    let n = l.len();
    macro_rules! tk {
        ($($k:literal)*) => {$(
            match take::<$k>(&l) {
                Ok((h, r)) => ensure!(n >= $k && h[..] == l[..$k] && r == &l[$k..], "take::<{}> of {l:?}", $k),
                Err(_) => ensure!(n < $k, "take::<{}> refused {l:?}", $k),
            }
            match exact::<$k>(&l) {
                Ok(h) => ensure!(n == $k && h[..] == l[..], "exact::<{}> of {l:?}", $k),
                Err(_) => ensure!(n != $k, "exact::<{}> refused {l:?}", $k),
            }
        )*};
    }
    tk!(0 1 2 3 4);
    match take_first(&l) {
        Ok((a, r)) => ensure!(n > 0 && *a == l[0] && r == &l[1..], "take_first {l:?}"),
        Err(_) => ensure!(n == 0, "take_first refused {l:?}"),
    }
    ensure_eq!(is_empty(&l).is_ok(), n == 0, "is_empty");
    match one_or(&l) {
        Ok(None) => ensure!(n == 0, "one_or none"),
        Ok(Some(a)) => ensure!(n == 1 && *a == l[0], "one_or some"),
        Err(_) => ensure!(n > 1, "one_or refused {n}"),
    }
    match single(&l) {
        Ok(a) => ensure!(n == 1 && *a == l[0], "single"),
        Err(_) => ensure!(n != 1, "single refused"),
    }
    let ctrs = t.iter().any(|a| matches!(a, A::C(_)));
    match no_ctrs(&l) {
        Ok(r) => ensure!(!ctrs && r == &l[..], "no_ctrs({l:?})"),
        Err(_) => ensure!(ctrs, "no_ctrs refused {l:?}"),
    }
    for (a, r) in t.iter().zip(&l) {
        ensure_eq!((is_colon(r).is_ok(), r.is_colon()), (*a == COLON, *a == COLON), "is_colon");
        ensure_eq!((is_fslash(r).is_ok(), r.is_fslash()), (*a == SLASH, *a == SLASH), "is_fslash");
        ensure_eq!(as_expr(r).is_ok(), !matches!(a, A::C(_)), "as_expr");
        ensure_eq!(r.expr().is_ok(), !matches!(a, A::C(_)), "expr()");
        ensure_eq!(as_bytes(r).ok().map(|b| b.to_vec()), if let A::B(b) = a { Some(b.clone()) } else { None }, "as_bytes");
        ensure_eq!(as_abstr(r).ok().map(|b| b.to_string()), if let A::B(b) = a { Some(esc(b)) } else { None }, "as_abstr");
        ensure_eq!(as_lst(r).ok().map(|b| from_reals(b)), if let A::L(b) = a { Some(b.clone()) } else { None }, "as_lst");
        if let ABE::Expr(e) = r {
            ensure_eq!(e.as_bytes().ok().map(|b| b.to_vec()), if let A::B(b) = a { Some(b.clone()) } else { None }, "Expr::as_bytes");
        }
    }
    // prefixed parts
    for (ctr, f) in [(COLON, is_colon as fn(&ABE) -> VResult<()>), (SLASH, is_fslash)] {
        let mut i = 0;
        let mut want = vec![];
        while i + 1 < t.len() && t[i] == ctr && !matches!(t[i + 1], A::C(_)) {
            want.push(t[i + 1].clone());
            i += 2
        }
        let (got, rest) = multi_ctr_expr(&l, f);
        let got: Vec<A> = got.into_iter().map(|e| from_real(&ABE::Expr(e))).collect();
        ensure_eq!(got, want, "multi_ctr_expr");
        ensure!(rest == &l[i..], "multi_ctr_expr leaves {rest:?}");
        match take_ctr_expr(&l, f) {
            Ok((e, r)) => ensure!(i > 0 && from_real(&ABE::Expr(e.clone())) == t[1] && r == &l[2..], "take_ctr_expr {l:?}"),
            Err(_) => ensure!(i == 0, "take_ctr_expr refused {l:?}"),
        }
        let fits = t.len() >= 2 && t[1] == ctr && !matches!(t[0], A::C(_));
        match take_expr_ctr2(&l, f) {
            Ok((e, r)) => ensure!(fits && from_real(&ABE::Expr(e.clone())) == t[0] && r == &l[2..], "take_expr_ctr2 {l:?}"),
            Err(_) => ensure!(!fits, "take_expr_ctr2 refused {l:?}"),
        }
        match strip_prefix(&l, f) {
            Ok(r) => ensure!(t.first() == Some(&ctr) && r == &l[1..], "strip_prefix {l:?}"),
            Err(_) => ensure!(t.first() != Some(&ctr), "strip_prefix refused {l:?}"),
        }
    }
    o.nontrivial(n >= 2);
    o.class_if(ctrs, "delimiters");
    Ok(())
}

pub fn props() -> Vec<Property> {
    let csets = || prop_oneof![6 => Just(0u32), 3 => Just(4), 3 => prop::sample::select(vec![1u32, 2, 3, 5, 6, 7, 16, 32, 48, 55])];
    vec![
        Property {
            id: "A01",
            rule: "a case counts when its bytes or text involve at least one escape (distinct inputs counted)",
            assumptions: &["the reference escape table in refabe.rs restates the documented escapes"],
            subs: vec![
                fixed("table", lexical_table(), table_case),
                sub("roundtrip", 400_000, 3_000_000, || bytes(200), text_of_bytes),
                sub("long", 20_000, 60_000, || vec(any::<u8>(), 0..3000), text_of_bytes),
                sub("accept", 600_000, 4_000_000, || {
                    (prop_oneof![3 => any_text(), 3 => soup(), 2 => (bytes(30), vec(any::<u8>(), 0..4)).prop_map(|(b, s)| styled(&b, &s).into_bytes()),
                      2 => (bytes(30), vec(any::<u8>(), 0..4), mutate()).prop_map(|(b, s, m)| { let mut t = styled(&b, &s).into_bytes(); apply_mut(&mut t, &m); t })],
                     prop_oneof![0usize..40, Just(1000)])
                }, text_accept),
            ],
        },
        Property {
            id: "A02",
            rule: "a tree counts when it has a nested list and more than one element; a text counts when it contains a bracket or backslash",
            assumptions: &["nesting is bounded by the stack (checked up to depth 3000)"],
            subs: vec![
                sub("tree-text", 300_000, 2_000_000, || (tree(), vec(any::<u8>(), 0..4)), tree_text),
                sub("text-tree", 500_000, 4_000_000, any_text, text_parse),
                sub("deep", 60, 600, || (0u32..3000, prop_oneof![Just(0i32), -2i32..3], prop::sample::select(b"a:/".to_vec())).prop_map(|(d, x, m)| (d, (d as i32 + x).max(0) as u32, m)), deep),
            ],
        },
        Property {
            id: "A03",
            rule: "a text counts when it is accepted and has at least two components",
            assumptions: &[],
            subs: vec![
                sub("split", 500_000, 5_000_000, move || (any_text(), csets(), csets()), split),
                sub("split-lines", 300_000, 2_000_000, || (vec(prop_oneof![3 => (tree(), vec(any::<u8>(), 0..3)).prop_map(|(t, s)| styled_print(&t, &s).into_bytes()), 1 => Just(b"\n".to_vec()), 1 => soup()], 1..4).prop_map(|v| v.concat()), prop::sample::select(vec![0u32, 1, 2, 3, 4]), prop::sample::select(vec![0u32, 0, 4, 1])), split),
            ],
        },
        Property {
            id: "A16",
            rule: "a replacement counts when it changes the list; a helper case counts when the list has two or more elements",
            assumptions: &["the pattern is not empty"],
            subs: vec![
                sub("replace", 300_000, 3_000_000, || {
                    (small_tree(), prop_oneof![3 => small_tree(), 3 => vec(prop_oneof![Just(A::C(b':')), Just(A::B(b"a".to_vec())), Just(A::B(b"b".to_vec()))], 1..3)], small_tree(), any::<prop::sample::Index>())
                        .prop_map(|(t, mut p, n, ix)| {
                            // half of the time the pattern is a window of the tree
                            if !t.is_empty() && ix.index(2) == 0 {
                                let i = ix.index(t.len());
                                let e = (i + 1 + ix.index(3)).min(t.len());
                                p = t[i..e].to_vec();
                            }
                            if p.is_empty() { p.push(A::B(b"a".to_vec())) }
                            (t, p, n)
                        })
                }, replace),
                sub("helpers", 300_000, 2_000_000, || prop_oneof![small_tree(), tree(), vec(prop_oneof![Just(COLON), Just(SLASH), Just(A::B(b"a".to_vec())), Just(A::L(vec![]))], 0..6).boxed()], helpers),
            ],
        },
    ]
}
