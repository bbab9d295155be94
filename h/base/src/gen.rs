//! Generators shared by the checks.
#![allow(dead_code)]
use crate::refabe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};

pub fn special_byte() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => prop::sample::select(b"\x00\xff:/[]\\\n\r\t".to_vec()),
        3 => prop::sample::select(b"abfnrtx0189AFxf \x1f\x20\x7e\x7f\x80\xfe\x01".to_vec()),
        2 => any::<u8>(),
    ]
    .boxed()
}
pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => vec(special_byte(), 0..=max.min(12)),
        2 => vec(any::<u8>(), 0..=max),
        1 => vec(special_byte(), 0..=max),
        1 => (0..=max.min(20), vec(special_byte(), 0..=max.min(6))).prop_map(|(n, t)| [vec![0u8; n], t].concat()),
        1 => (0..=max.min(20), vec(special_byte(), 0..=max.min(6))).prop_map(|(n, t)| [vec![255u8; n], t].concat()),
        1 => vec(0x20u8..0x7f, 0..=max),
    ]
    .boxed()
}
pub fn short_bytes() -> BoxedStrategy<Vec<u8>> {
    vec(special_byte(), 0..=4).boxed()
}
/// printable, simple name-like byte strings
pub fn word() -> BoxedStrategy<Vec<u8>> {
    vec(prop::sample::select(b"abcxyz019 -_.?~+".to_vec()), 0..=5).boxed()
}

/// one byte written in one of its valid text forms
pub fn byte_forms(b: u8, pick: u8) -> String {
    let mut forms = vec![esc_byte(b), format!("\\x{b:02x}"), format!("\\x{b:02X}")];
    if esc_byte(b).len() > 1 {
        forms.push(esc_byte(b))
    }
    forms[pick as usize % forms.len()].clone()
}
/// valid text of bytes with randomly chosen escape forms
pub fn styled(bytes: &[u8], style: &[u8]) -> String {
    bytes
        .iter()
        .enumerate()
        .map(|(i, b)| byte_forms(*b, if style.is_empty() { 0 } else { style[i % style.len()] }))
        .collect()
}
pub fn styled_print(l: &[A], style: &[u8]) -> String {
    l.iter()
        .map(|a| match a {
            A::C(c) => (*c as char).to_string(),
            A::B(b) => styled(b, style),
            A::L(l) => format!("[{}]", styled_print(l, style)),
        })
        .collect()
}
/// token soup: fragments of valid and broken text
pub fn soup() -> BoxedStrategy<Vec<u8>> {
    let frag = prop_oneof![
        4 => prop::sample::select(vec![
            "[", "]", ":", "/", "\\", "\\\\", "\\:", "\\/", "\\[", "\\]", "\\n", "\\r", "\\t", "\\0", "\\f",
            "\\x", "\\x4", "\\x41", "\\xZZ", "\\xfF", "\\X41", "\\q", "\n", "\t", "\r", "\u{e9}", "[]", "[:", "[/", "//", "::", "a", "ab", "0",
            "[/:", "[a:", "[u8:1]", "/?", "?", "e", " ",
        ])
        .prop_map(|s| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 1..=2),
        1 => word(),
    ];
    vec(frag, 0..=14).prop_map(|v| v.concat()).boxed()
}
/// arbitrary expression tree (not necessarily in normal form)
pub fn tree() -> BoxedStrategy<Vec<A>> {
    let leaf = prop_oneof![
        2 => Just(A::C(b':')),
        2 => Just(A::C(b'/')),
        3 => bytes(8).prop_map(A::B),
        2 => word().prop_map(A::B),
    ];
    let node = leaf.prop_recursive(5, 40, 6, |inner| {
        vec(inner, 0..=6).prop_map(A::L)
    });
    vec(node, 0..=6).boxed()
}
pub fn mutate() -> BoxedStrategy<Vec<(u16, u8, u8)>> {
    vec((any::<u16>(), 0u8..4, special_byte()), 0..=3).boxed()
}
pub fn apply_mut(text: &mut Vec<u8>, ms: &[(u16, u8, u8)]) {
    for (pos, kind, b) in ms {
        if text.is_empty() {
            text.push(*b);
            continue;
        }
        let i = *pos as usize % text.len();
        match kind {
            0 => text[i] = *b,
            1 => text.insert(i, *b),
            2 => {
                text.remove(i);
            }
            _ => text.truncate(i),
        }
    }
}
/// expression text: valid, mutated, soup or raw
pub fn any_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => (tree(), vec(any::<u8>(), 0..4)).prop_map(|(t, s)| styled_print(&t, &s).into_bytes()),
        3 => (tree(), vec(any::<u8>(), 0..4), mutate()).prop_map(|(t, s, m)| {
            let mut x = styled_print(&t, &s).into_bytes();
            apply_mut(&mut x, &m);
            x
        }),
        3 => soup(),
        1 => vec(any::<u8>(), 0..=10),
        2 => (program(3), vec(any::<u8>(), 0..4), mutate()).prop_map(|(t, s, m)| {
            let mut x = styled_print(&t, &s).into_bytes();
            apply_mut(&mut x, &m);
            x
        }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ arguments by kind
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Bytes,
    Len,
    Pad,
    Idx,
    Dec,
    Le16,
    Bin,
    Oct,
    Hex,
    B64,
    B64S,
    OpEq,
    Opts,
    Text,
    Short,
}
pub fn len_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => (0u32..40).prop_map(|v| v.to_string()),
        2 => prop::sample::select(vec!["", "16", "0", "1", "+5", "007", "-1", "x", "1 ", "300", "1000", "99999999999999999999999"]).prop_map(String::from),
    ]
    .prop_map(String::into_bytes)
    .boxed()
}
pub fn idx_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        10 => (-20i32..20).prop_map(|v| v.to_string()),
        2 => prop::sample::select(vec![
            "", "-0", "0", "+3", "-+3", "--3", "x", "-", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
            "-9223372036854775809", "18446744073709551615", "-18446744073709551615", "18446744073709551616", "-1", "1", "4294967296",
        ]).prop_map(String::from),
    ]
    .prop_map(String::into_bytes)
    .boxed()
}
pub fn dec_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => (0u32..300).prop_map(|v| v.to_string()),
        4 => prop::sample::select(vec![8u32, 16, 32, 64, 127]).prop_flat_map(|b| (-2i64..=2).prop_map(move |d| {
            let base = if b == 127 { u128::MAX - 2 } else { 1u128 << b };
            if d < 0 { base - (-d) as u128 } else { base.checked_add(d as u128).unwrap_or(u128::MAX) }.to_string()
        })),
        2 => any::<u128>().prop_map(|v| v.to_string()),
        2 => any::<u64>().prop_map(|v| v.to_string()),
        1 => any::<u32>().prop_map(|v| format!("0{v}")),
        2 => prop::sample::select(vec!["", "+1", "-1", "-0", "1.", " 1", "0x1", "340282366920938463463374607431768211456", "340282366920938463463374607431768211455", "+", "1_0", "\u{0663}"]).prop_map(String::from),
    ]
    .prop_map(String::into_bytes)
    .boxed()
}
fn digits(alpha: &'static str, max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => vec(prop::sample::select(alpha.as_bytes().to_vec()), 0..=max.min(12)),
        3 => vec(prop::sample::select(alpha.as_bytes().to_vec()), 0..=max),
        1 => (vec(prop::sample::select(alpha.as_bytes().to_vec()), 0..=max), mutate()).prop_map(|(mut v, m)| { apply_mut(&mut v, &m); v }),
    ]
    .boxed()
}
pub fn b64_text(std: bool) -> BoxedStrategy<Vec<u8>> {
    (bytes(30), mutate(), 0u8..10)
        .prop_map(move |(b, m, k)| {
            let mut t = if std { b64std(&b) } else { b64url(&b) }.into_bytes();
            match k {
                0 => apply_mut(&mut t, &m),
                1 => t.push(b'='),
                2 => {
                    // disturb the last symbol
                    if let Some(l) = t.iter_mut().rev().find(|c| **c != b'=') {
                        *l = match *l {
                            b'A' => b'B',
                            b'Q' => b'R',
                            b'g' => b'h',
                            b'w' => b'x',
                            x => x,
                        }
                    }
                }
                3 => {
                    t = if std { b64url(&b) } else { b64std(&b) }.into_bytes();
                }
                _ => {}
            }
            t
        })
        .boxed()
}
pub fn opts_text() -> BoxedStrategy<Vec<u8>> {
    let one = prop_oneof![
        6 => prop::sample::select(ENCODERS.to_vec()).prop_map(|s| s.to_string()),
        4 => (prop::sample::select(vec!["b2", "b16", "b", "u8", "a", "bs"]), vec(0u8..34, 1..=2)).prop_map(|(e, v)| {
            format!("{e}:{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(":"))
        }),
        1 => prop::sample::select(vec!["nope", "", ":", "b:x", "b2:", "b:-1", "b:99999999999", "a:[a]", "[a]", "slice", "b16:x", "b:[u8:1]", "b2:1:"]).prop_map(String::from),
    ];
    vec(one, 0..=4).prop_map(|v| v.join("/").into_bytes()).boxed()
}
pub fn by_kind(k: K) -> BoxedStrategy<Vec<u8>> {
    let norm: BoxedStrategy<Vec<u8>> = match k {
        K::Bytes => bytes(30),
        K::Short => prop_oneof![vec(prop::sample::select(b"ab\x00".to_vec()), 0..=3), short_bytes()].boxed(),
        K::Len => len_text(),
        K::Pad => prop_oneof![5 => special_byte().prop_map(|b| vec![b]), 1 => short_bytes()].boxed(),
        K::Idx => idx_text(),
        K::Dec => dec_text(),
        K::Le16 => bytes(17),
        K::Bin => digits("01", 130),
        K::Oct => digits("01234567", 45),
        K::Hex => digits("0123456789abcdefABCDEF", 34),
        K::B64 => b64_text(false),
        K::B64S => b64_text(true),
        K::OpEq => prop_oneof![6 => Just(b"=".to_vec()), 1 => short_bytes(), 1 => prop::sample::select(vec![b"<".to_vec(), b">".to_vec(), b"==".to_vec()])].boxed(),
        K::Opts => opts_text(),
        K::Text => prop_oneof![3 => soup(), 2 => (tree(), vec(any::<u8>(), 0..3)).prop_map(|(t, s)| styled_print(&t, &s).into_bytes()),
            2 => dec_text().prop_map(|d| [b"[u8:".to_vec(), d, b"]".to_vec()].concat())].boxed(),
    };
    prop_oneof![20 => norm, 1 => short_bytes()].boxed()
}
/// kinds of (input, further arguments) per function
pub fn kinds(f: &str) -> Vec<K> {
    match f {
        "?a" | "?a0" | "~utf8" | "?b" | "2mini" | "?bs" => vec![K::Bytes],
        "a" | "f" | "lpad" | "rpad" | "~lpad" | "~rpad" | "lfixed" | "rfixed" => vec![K::Bytes, K::Len, K::Pad],
        "lcut" | "rcut" | "~lcut" | "~rcut" => vec![K::Bytes, K::Len],
        "replace" => vec![K::Bytes, K::Short, K::Short],
        "slice" => vec![K::Bytes, K::Idx, K::Idx, K::Idx],
        "+" | "-" => vec![K::Short; 4],
        "u8" | "u16" | "u32" | "u64" | "u128" | "lu" | "lu8" | "lu16" | "lu32" | "lu64" | "lu128" => vec![K::Dec],
        "?u" | "?lu" => vec![K::Le16],
        "b2" => vec![K::Bin],
        "b8" => vec![K::Oct],
        "b16" => vec![K::Hex],
        "b" => vec![K::B64],
        "bs" => vec![K::B64S],
        "C" => vec![K::Short; 3],
        "size?" => vec![K::Bytes, K::OpEq, K::Len],
        "val?" => vec![K::Short, K::OpEq, K::Short],
        "eval" => vec![K::Text],
        "?" | "??" | "???" => vec![K::Bytes, K::Opts],
        _ => vec![K::Bytes; 3],
    }
}
/// number of arguments for one function: usually legal, sometimes off by some
pub fn arity(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let hi = hi.min(lo + 4);
    prop_oneof![12 => lo..=hi, 1 => 0usize..=5, 1 => Just(hi + 1)].boxed()
}
/// (function, full argument list including the piped input)
pub fn call_of(f: &'static (&'static str, usize, usize)) -> BoxedStrategy<(&'static str, Vec<Vec<u8>>)> {
    arity(f.1, f.2)
        .prop_flat_map(move |n| {
            let ks = kinds(f.0);
            let st: Vec<BoxedStrategy<Vec<u8>>> = (0..n)
                .map(|i| by_kind(ks.get(i).copied().unwrap_or(*ks.last().unwrap())))
                .collect();
            (Just(f.0), st)
        })
        .boxed()
}
/// equal length operand lists for + and -; the last one may be chosen to bring the sum (or the
/// difference) of the others to within 2 of a power of 256^n
pub fn addends() -> BoxedStrategy<Vec<Vec<u8>>> {
    (0usize..=20, 1usize..=6)
        .prop_flat_map(|(n, k)| {
            (
                vec(
                    prop_oneof![
                        vec(prop_oneof![Just(0u8), Just(255), Just(1), Just(254), Just(127), Just(128), any::<u8>()], n..=n),
                        vec(any::<u8>(), n..=n),
                        (0..=n, any::<u8>()).prop_map(move |(z, b)| {
                            let mut v = vec![0u8; n];
                            if z < n { v[z] = b }
                            v
                        }),
                    ],
                    k..=k,
                ),
                0u8..3,
                -2i16..=2,
            )
        })
        .prop_map(|(mut v, how, delta)| {
            let k = v.len();
            let n = v[0].len();
            if how > 0 && k > 1 && n > 0 {
                // running value modulo 256^n of the operands before the last
                let mut acc = v[0].clone();
                let comb = |acc: &mut Vec<u8>, o: &[u8], neg: bool| {
                    let mut c = 0i16;
                    for i in (0..n).rev() {
                        let t = acc[i] as i16 + if neg { -(o[i] as i16) } else { o[i] as i16 } + c;
                        acc[i] = t.rem_euclid(256) as u8;
                        c = t.div_euclid(256);
                    }
                };
                for o in &v[1..k - 1] {
                    comb(&mut acc, o, how == 2);
                }
                // how 1: the complement to 256^n; how 2: the difference itself
                let mut last = if how == 1 {
                    let mut z = vec![0u8; n];
                    comb(&mut z, &acc, true);
                    z
                } else {
                    acc
                };
                let mut d = vec![if delta < 0 { 255u8 } else { 0 }; n];
                d[n - 1] = delta.rem_euclid(256) as u8;
                comb(&mut last, &d, false);
                v[k - 1] = last;
            }
            v
        })
        .boxed()
}

// ------------------------------------------------------------------ meaningful programs
/// an argument: literal bytes or a nested bracket
fn arg_strategy(k: K, inner: BoxedStrategy<A>) -> BoxedStrategy<Vec<A>> {
    prop_oneof![
        6 => by_kind(k).prop_map(|b| vec![A::B(b)]),
        2 => inner.clone().prop_map(|a| vec![a]),
        1 => (word(), inner).prop_map(|(w, a)| vec![A::B(w), a]),
    ]
    .boxed()
}
fn call_items(f: &'static (&'static str, usize, usize), skip: usize, inner: BoxedStrategy<A>) -> BoxedStrategy<Vec<A>> {
    arity(f.1, f.2)
        .prop_flat_map(move |n| {
            let ks = kinds(f.0);
            let st: Vec<BoxedStrategy<Vec<A>>> = (skip..n.max(skip))
                .map(|i| arg_strategy(ks.get(i).copied().unwrap_or(*ks.last().unwrap()), inner.clone()))
                .collect();
            st.prop_map(move |args| {
                let mut o = vec![A::B(f.0.as_bytes().to_vec())];
                for a in args {
                    o.push(COLON);
                    o.extend(a);
                }
                o
            })
        })
        .boxed()
}
pub fn any_func() -> BoxedStrategy<&'static (&'static str, usize, usize)> {
    (0..FUNCS.len()).prop_map(|i| &FUNCS[i]).boxed()
}
pub const PROBES: &[(&str, usize, usize)] = &[("p", 0, 16), ("pi", 0, 16), ("pn", 1, 16), ("p2", 2, 2), ("q", 0, 16)];
fn any_func_or_probe() -> BoxedStrategy<&'static (&'static str, usize, usize)> {
    prop_oneof![4 => any_func(), 3 => (0..PROBES.len()).prop_map(|i| &PROBES[i])].boxed()
}
fn bracket_strategy(inner: BoxedStrategy<A>) -> BoxedStrategy<A> {
    let inner2 = inner.clone();
    let inner3 = inner.clone();
    let chain = move |inner: BoxedStrategy<A>| {
        vec(
            any_func_or_probe().prop_flat_map(move |f| call_items(f, 1, inner.clone())),
            0..=3,
        )
    };
    let start_call = any_func_or_probe().prop_flat_map(move |f| call_items(f, 0, inner2.clone()));
    let start_lit = vec(arg_strategy(K::Bytes, inner3.clone()), 0..=3).prop_map(|v| {
        let mut o = vec![COLON];
        for (i, a) in v.into_iter().enumerate() {
            if i > 0 {
                o.push(COLON)
            }
            o.extend(a)
        }
        o
    });
    let pipeline = (prop_oneof![5 => start_call.boxed(), 3 => start_lit.boxed()], chain(inner.clone())).prop_map(|(mut s, c)| {
        for x in c {
            s.push(SLASH);
            s.extend(x)
        }
        A::L(s)
    });
    let items = vec(prop_oneof![3 => inner.clone(), 3 => by_kind(K::Bytes).prop_map(A::B), 1 => Just(COLON), 1 => Just(SLASH)], 0..=5);
    let mac = (
        prop::sample::select(vec!["or", "or", "?", "~?", "e", "e", "", ":", "pm", "nope", "eval"]),
        vec(items, 0..=3),
        opts_text(),
        any::<bool>(),
    )
        .prop_map(|(m, alts, opts, skipcolon)| {
            let mut o = vec![SLASH];
            if m == ":" {
                o.push(COLON);
                for a in alts {
                    o.extend(a)
                }
                return A::L(o);
            }
            if !m.is_empty() {
                o.push(A::B(m.as_bytes().to_vec()));
            } else {
                o.push(SLASH)
            }
            for (i, a) in alts.into_iter().enumerate() {
                if i > 0 || !skipcolon || m != "or" {
                    o.push(COLON)
                }
                o.extend(a)
            }
            if m == "?" || m == "~?" {
                if let Ok(p) = parse(&opts, false) {
                    o.push(SLASH);
                    o.extend(p)
                }
            }
            A::L(o)
        });
    let odd = vec(prop_oneof![2 => inner, 2 => word().prop_map(A::B), 1 => Just(COLON), 1 => Just(SLASH)], 0..=20).prop_map(A::L);
    prop_oneof![12 => pipeline, 4 => mac, 1 => odd].boxed()
}
/// a program: mostly meaningful nested function applications
pub fn program(depth: u32) -> BoxedStrategy<Vec<A>> {
    let leaf: BoxedStrategy<A> = prop_oneof![
        (prop::sample::select(vec!["u8", "u16", "lu32", "u128"]), 0u32..300).prop_map(|(f, n)| A::L(vec![A::B(f.into()), COLON, A::B(n.to_string().into_bytes())])),
        bytes(8).prop_map(|b| A::L(vec![COLON, A::B(b)])),
        Just(A::L(vec![])),
        word().prop_map(|b| A::L(vec![A::B(b)])),
    ]
    .boxed();
    let node: BoxedStrategy<A> = {
        let mut cur = leaf.clone();
        for _ in 0..depth {
            cur = Union::new_weighted(vec![(2, leaf.clone()), (3, bracket_strategy(cur))]).boxed();
        }
        cur
    };
    vec(
        prop_oneof![6 => node, 2 => word().prop_map(A::B), 1 => bytes(6).prop_map(A::B), 1 => Just(COLON), 1 => Just(SLASH)],
        1..=3,
    )
    .boxed()
}
