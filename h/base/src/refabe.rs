//! Independent reference implementation of the ascii-byte-expression language, written from
//! its documented behaviour.  Nothing in here calls the code under test.
#![allow(dead_code)]

#[derive(Clone, PartialEq, Debug)]
pub enum A {
    C(u8),
    B(Vec<u8>),
    L(Vec<A>),
}
pub const COLON: A = A::C(b':');
pub const SLASH: A = A::C(b'/');

// ------------------------------------------------------------------ text of bytes
pub fn esc_byte(b: u8) -> String {
    match b {
        0 => "\\0".into(),
        0xff => "\\f".into(),
        b'\n' => "\\n".into(),
        b'\t' => "\\t".into(),
        b'\r' => "\\r".into(),
        b':' | b'\\' | b'/' | b'[' | b']' => format!("\\{}", b as char),
        0x20..=0x7e => (b as char).to_string(),
        _ => format!("\\x{b:02x}"),
    }
}
pub fn esc(bytes: &[u8]) -> String {
    bytes.iter().map(|b| esc_byte(*b)).collect()
}
#[derive(Debug, PartialEq, Clone)]
pub enum Lex {
    Byte(u8),
    Ctr(u8),
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum LexErr {
    /// not valid at this byte
    Bad(u8),
    /// broken \x.. sequence
    Hex,
}
fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}
/// one lexical element and its length
pub fn lex1(t: &[u8]) -> Option<Result<(Lex, usize), LexErr>> {
    let b = *t.first()?;
    Some(match b {
        b'/' | b':' | b'[' | b']' | b'\n' => Ok((Lex::Ctr(b), 1)),
        b'\\' => match t.get(1) {
            None => Err(LexErr::Bad(b)),
            Some(b'x') => match (t.get(2).copied().and_then(hexval), t.get(3).copied().and_then(hexval)) {
                (Some(h), Some(l)) => Ok((Lex::Byte(h * 16 + l), 4)),
                _ => Err(LexErr::Hex),
            },
            Some(c) => {
                let v = match c {
                    b'0' => 0,
                    b'f' => 255,
                    b'n' => b'\n',
                    b'r' => b'\r',
                    b't' => b'\t',
                    b'[' | b']' | b':' | b'/' | b'\\' => *c,
                    _ => return Some(Err(LexErr::Bad(b))),
                };
                Ok((Lex::Byte(v), 2))
            }
        },
        0x20..=0x7e => Ok((Lex::Byte(b), 1)),
        _ => Err(LexErr::Bad(b)),
    })
}
/// text -> bytes, None if not valid
pub fn unesc(mut t: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    while let Some(r) = lex1(t) {
        match r {
            Ok((Lex::Byte(b), n)) => {
                out.push(b);
                t = &t[n..]
            }
            _ => return None,
        }
    }
    Some(out)
}

// ------------------------------------------------------------------ parsing and printing
#[derive(Debug, Clone, PartialEq)]
pub enum PErr {
    Text,
    Close,
    Open,
}
pub fn parse(text: &[u8], lenient: bool) -> Result<Vec<A>, PErr> {
    let mut t = text;
    let mut stack: Vec<Vec<A>> = vec![vec![]];
    fn byte(top: &mut Vec<A>, b: u8) {
        if let Some(A::B(v)) = top.last_mut() {
            v.push(b)
        } else {
            top.push(A::B(vec![b]))
        }
    }
    while let Some(r) = lex1(t) {
        match r {
            Ok((Lex::Byte(b), n)) => {
                byte(stack.last_mut().unwrap(), b);
                t = &t[n..]
            }
            Ok((Lex::Ctr(b'\n'), n)) => {
                if !lenient {
                    return Err(PErr::Text);
                }
                byte(stack.last_mut().unwrap(), b'\n');
                t = &t[n..]
            }
            Ok((Lex::Ctr(b'['), n)) => {
                stack.push(vec![]);
                t = &t[n..]
            }
            Ok((Lex::Ctr(b']'), n)) => {
                if stack.len() == 1 {
                    return Err(PErr::Close);
                }
                let l = stack.pop().unwrap();
                stack.last_mut().unwrap().push(A::L(l));
                t = &t[n..]
            }
            Ok((Lex::Ctr(c), n)) => {
                stack.last_mut().unwrap().push(A::C(c));
                t = &t[n..]
            }
            Err(LexErr::Bad(b)) if lenient => {
                byte(stack.last_mut().unwrap(), b);
                t = &t[1..]
            }
            Err(_) => return Err(PErr::Text),
        }
    }
    if stack.len() > 1 {
        return Err(PErr::Open);
    }
    Ok(stack.pop().unwrap())
}
pub fn print(l: &[A]) -> String {
    l.iter()
        .map(|a| match a {
            A::C(c) => (*c as char).to_string(),
            A::B(b) => esc(b),
            A::L(l) => format!("[{}]", print(l)),
        })
        .collect()
}
/// merge adjacent byte runs, drop empty ones
pub fn normal(l: &[A]) -> Vec<A> {
    let mut out: Vec<A> = vec![];
    for a in l {
        match a {
            A::C(c) => out.push(A::C(*c)),
            A::L(l) => out.push(A::L(normal(l))),
            A::B(b) if b.is_empty() => {}
            A::B(b) => {
                if let Some(A::B(v)) = out.last_mut() {
                    v.extend(b)
                } else {
                    out.push(A::B(b.clone()))
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ conversions to the real types
pub fn to_real(a: &A) -> abe::ABE {
    use abe::ast::*;
    match a {
        A::C(b':') => ABE::Ctr(Ctr::Colon),
        A::C(_) => ABE::Ctr(Ctr::FSlash),
        A::B(b) => ABE::Expr(Expr::Bytes(b.clone())),
        A::L(l) => ABE::Expr(Expr::Lst(l.iter().map(to_real).collect())),
    }
}
pub fn to_reals(l: &[A]) -> Vec<abe::ABE> {
    l.iter().map(to_real).collect()
}
pub fn from_real(a: &abe::ABE) -> A {
    use abe::ast::*;
    match a {
        ABE::Ctr(Ctr::Colon) => A::C(b':'),
        ABE::Ctr(Ctr::FSlash) => A::C(b'/'),
        ABE::Expr(Expr::Bytes(b)) => A::B(b.clone()),
        ABE::Expr(Expr::Lst(l)) => A::L(l.iter().map(from_real).collect()),
    }
}
pub fn from_reals(l: &[abe::ABE]) -> Vec<A> {
    l.iter().map(from_real).collect()
}

// ------------------------------------------------------------------ delimited lists
pub type Comp = (Option<u8>, Vec<u8>);
pub enum It {
    C(u8),
    B(Vec<u8>),
}
pub fn collect_items(it: impl IntoIterator<Item = It>) -> Vec<Comp> {
    let mut out: Vec<Comp> = vec![];
    for i in it {
        match i {
            It::C(c) => out.push((Some(c), vec![])),
            It::B(b) => match out.last_mut() {
                Some((_, v)) => v.extend(b),
                None => out.push((None, b)),
            },
        }
    }
    out
}
pub fn join(l: &[Comp]) -> Vec<u8> {
    let mut out = vec![];
    for (c, b) in l {
        out.extend(c.iter());
        out.extend(b)
    }
    out
}
pub fn comps_real(l: &abe::eval::ABList) -> Vec<Comp> {
    l.as_slice()
        .iter()
        .map(|(c, b)| (c.map(|c| c as u8), b.clone()))
        .collect()
}

// ------------------------------------------------------------------ evaluation
#[derive(Debug, Clone, PartialEq)]
pub enum EErr {
    NoFunc(Vec<u8>),
    NoMacro(Vec<u8>),
    Func(Vec<u8>),
    Macro(Vec<u8>),
    Other,
}
/// outcome of a scope lookup
#[derive(Debug, Clone, PartialEq)]
pub enum R<V = Vec<u8>> {
    None,
    Val(V),
    Err,
}
impl<V> R<V> {
    pub fn or_else(self, f: impl FnOnce() -> R<V>) -> R<V> {
        match self {
            R::None => f(),
            o => o,
        }
    }
}
impl<V> From<Option<V>> for R<V> {
    fn from(o: Option<V>) -> R<V> {
        o.map_or(R::Err, R::Val)
    }
}
pub trait RScope {
    fn func(&self, id: &[u8], args: &[&[u8]], init: bool, top: &dyn RScope) -> R;
    fn mac(&self, id: &[u8], abe: &[A], top: &dyn RScope) -> R;
    fn enc(&self, id: &[u8], opts: &[A], bytes: &[u8]) -> R<String>;
}
pub fn eval(s: &dyn RScope, l: &[A]) -> Result<Vec<Comp>, EErr> {
    let mut items = vec![];
    for a in l {
        items.push(match a {
            A::C(c) => It::C(*c),
            A::B(b) => It::B(b.clone()),
            A::L(l) => It::B(bracket(s, l)?),
        })
    }
    Ok(collect_items(items))
}
pub fn dump(l: &[A]) -> Vec<u8> {
    let mut o = vec![];
    for a in l {
        match a {
            A::C(c) => o.push(*c),
            A::B(b) => o.extend(b),
            A::L(l) => {
                o.push(b'[');
                o.extend(dump(l));
                o.push(b']')
            }
        }
    }
    o
}
fn is_expr(a: &A) -> bool {
    !matches!(a, A::C(_))
}
pub fn bracket(s: &dyn RScope, l: &[A]) -> Result<Vec<u8>, EErr> {
    if l.first() == Some(&SLASH) {
        let tail = &l[1..];
        let (id, rest): (&[u8], &[A]) = match tail.first() {
            None => return Err(EErr::Other),
            Some(A::L(_)) => return Err(EErr::Other),
            Some(A::C(b':')) => return Ok(dump(&tail[1..])),
            Some(A::C(_)) => (&[], tail),
            Some(A::B(b)) => (b, &tail[1..]),
        };
        return match s.mac(id, rest, s) {
            R::None => Err(EErr::NoMacro(id.to_vec())),
            R::Val(v) => Ok(v),
            R::Err => Err(EErr::Macro(id.to_vec())),
        };
    }
    if matches!(l.first(), Some(A::L(_))) {
        return Err(EErr::Other);
    }
    if l.len() == 2 && is_expr(&l[0]) && is_expr(&l[1]) {
        return Err(EErr::Other);
    }
    let comps = eval(s, l)?;
    // split in calls at every '/' but the first component
    let mut calls: Vec<Vec<Comp>> = vec![];
    for (i, c) in comps.into_iter().enumerate() {
        if i == 0 || c.0 == Some(b'/') {
            calls.push(vec![c])
        } else {
            calls.last_mut().unwrap().push(c)
        }
    }
    let mut carry: Vec<u8> = vec![];
    for call in calls {
        if call.len() > 16 {
            return Err(EErr::Other);
        }
        if call[0].0 == Some(b':') {
            carry = call.iter().flat_map(|c| c.1.clone()).collect();
            continue;
        }
        let init = call[0].0.is_none();
        let id = call[0].1.clone();
        let mut args: Vec<&[u8]> = vec![];
        if !init {
            args.push(&carry)
        }
        args.extend(call[1..].iter().map(|c| c.1.as_slice()));
        let r = match s.func(&id, &args, init, s) {
            R::None => return Err(EErr::NoFunc(id)),
            R::Err => return Err(EErr::Func(id)),
            R::Val(v) => v,
        };
        carry = r;
    }
    Ok(carry)
}

// ------------------------------------------------------------------ encoding
pub fn split_slash(l: &[A]) -> Vec<&[A]> {
    l.split(|a| *a == SLASH).collect()
}
pub fn encode_abe(s: &dyn RScope, bytes: &[u8], opts: &[A], ignore: bool) -> Option<String> {
    if opts.is_empty() {
        return None;
    }
    for seg in split_slash(opts) {
        let (id, args): (&[u8], &[A]) = match seg {
            [] => return Some(esc(bytes)),
            [A::C(b':')] => (&[], &[]),
            [A::B(b)] => (b, &[]),
            [A::B(b), A::C(b':'), rest @ ..] => (b, rest),
            _ => return None,
        };
        match s.enc(id, args, bytes) {
            R::None => {}
            R::Val(v) => return Some(v),
            R::Err => {
                if !ignore {
                    return None;
                }
            }
        }
    }
    None
}
pub fn encode(s: &dyn RScope, bytes: &[u8], opts: &[u8], ignore: bool) -> Option<String> {
    encode_abe(s, bytes, &parse(opts, false).ok()?, ignore)
}

// ------------------------------------------------------------------ number text
/// what a decimal unsigned number text means (optional '+', digits), None if malformed or > max
pub fn num(b: &[u8], max: u128) -> Option<u128> {
    radix(b, 10).filter(|v| *v <= max)
}
pub fn radix(b: &[u8], r: u32) -> Option<u128> {
    let d = b.strip_prefix(b"+").unwrap_or(b);
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d {
        if !c.is_ascii() {
            return None;
        }
        let x = (*c as char).to_digit(r)?;
        v = v.checked_mul(r as u128)?.checked_add(x as u128)?;
    }
    Some(v)
}
/// isize text
pub fn snum(b: &[u8]) -> Option<i128> {
    let (neg, d) = match b.strip_prefix(b"-") {
        Some(r) => (true, r),
        None => (false, b.strip_prefix(b"+").unwrap_or(b)),
    };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for c in d {
        v = v.checked_mul(10)?.checked_add((*c - b'0') as i128)?;
        if v > (1i128 << 64) {
            return None;
        }
    }
    let v = if neg { -v } else { v };
    if v < i64::MIN as i128 || v > i64::MAX as i128 {
        return None;
    }
    Some(v)
}
pub fn cut0(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|x| **x == 0).count();
    &b[n..]
}

// ------------------------------------------------------------------ base64 by hand
const STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn b64e(b: &[u8], alpha: &[u8; 64], pad: bool) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(alpha[(v >> (18 - 6 * i)) as usize & 63] as char)
            } else if pad {
                o.push('=')
            }
        }
    }
    o
}
fn b64d(t: &[u8], alpha: &[u8; 64], pad: bool) -> Option<Vec<u8>> {
    let mut t = t;
    if pad {
        if t.len() % 4 != 0 {
            return None;
        }
        let n = t.iter().rev().take_while(|c| **c == b'=').count();
        if n > 2 {
            return None;
        }
        t = &t[..t.len() - n];
        if (t.len() + n) % 4 != 0 || t.len() % 4 == 1 || (n > 0 && t.len() % 4 == 0) {
            return None;
        }
    }
    if t.len() % 4 == 1 {
        return None;
    }
    let mut o = vec![];
    let mut acc: u32 = 0;
    let mut bits = 0;
    for c in t {
        let v = alpha.iter().position(|a| a == c)? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        return None;
    }
    Some(o)
}
pub fn b64url(b: &[u8]) -> String {
    b64e(b, URL, false)
}
pub fn b64std(b: &[u8]) -> String {
    b64e(b, STD, true)
}
pub fn b64std_nopad(b: &[u8]) -> String {
    b64e(b, STD, false)
}
pub fn b64url_dec(t: &[u8]) -> Option<Vec<u8>> {
    b64d(t, URL, false)
}
pub fn b64std_dec(t: &[u8]) -> Option<Vec<u8>> {
    b64d(t, STD, true)
}
pub fn mini(b: &[u8]) -> String {
    let s = b64url(b);
    if b.len() <= 12 {
        return s;
    }
    let p = b.len() / 8;
    let mut o = s[..6].to_string();
    for _ in 0..p / 2 {
        o.push(':')
    }
    if p % 2 == 1 {
        o.push('.')
    }
    o + &s[s.len() - 2..]
}

// ------------------------------------------------------------------ built-in functions
thread_local! { static TOO_BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// did the reference meet a requested length it refuses to materialise (documented bound)?
pub fn take_too_big() -> bool {
    TOO_BIG.with(|t| t.replace(false))
}
pub fn ref_pad(inp: &[&[u8]], left: bool, default: u8, check: bool, fixed: bool) -> Option<Vec<u8>> {
    let len = match inp.get(1) {
        Some(l) if !l.is_empty() => num(l, u64::MAX as u128)? as usize,
        _ => 16,
    };
    let mut b = inp[0];
    if fixed && b.len() > len {
        b = if left { &b[..len] } else { &b[b.len() - len..] };
    }
    if b.len() > len {
        return if check { None } else { Some(b.to_vec()) };
    }
    let pad = match inp.get(2) {
        None => default,
        Some([p]) => *p,
        Some(_) => return None,
    };
    if len > 1 << 20 {
        TOO_BIG.with(|t| t.set(true));
        return None;
    }
    let fill = vec![pad; len - b.len()];
    Some(if left { [&fill, b].concat() } else { [b, &fill].concat() })
}
pub fn ref_cut(inp: &[&[u8]], left: bool, check: bool) -> Option<Vec<u8>> {
    let len = match inp.get(1) {
        Some(l) => num(l, u64::MAX as u128)?,
        None => 16,
    };
    let b = inp[0];
    if len > b.len() as u128 {
        return if check { None } else { Some(b.to_vec()) };
    }
    let len = len as usize;
    Some(if left { b[..len].to_vec() } else { b[b.len() - len..].to_vec() })
}
pub fn ref_replace(b: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    if from.is_empty() {
        return b.to_vec();
    }
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(from) {
            o.extend(to);
            i += from.len()
        } else {
            o.push(b[i]);
            i += 1
        }
    }
    o
}
/// indexes selected by python's slice(start, stop, step) on a sequence of length n; step 0 selects nothing
pub fn ref_slice_idx(n: usize, args: &[&[u8]]) -> Option<Vec<usize>> {
    fn bound(a: Option<&&[u8]>) -> Option<Option<i128>> {
        match a {
            None => Some(None),
            Some(b) if b.is_empty() => Some(None),
            Some(b) => match b.strip_prefix(b"-") {
                Some(r) => Some(Some(-(num(r, u64::MAX as u128)? as i128))),
                None => Some(Some(num(b, u64::MAX as u128)? as i128)),
            },
        }
    }
    let start = bound(args.first())?;
    let stop = bound(args.get(1))?;
    let step = match args.get(2) {
        None => 1,
        Some(b) => snum(b)?,
    };
    if step == 0 {
        return Some(vec![]);
    }
    let n = n as i128;
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let fix = |v: i128, neg: bool| -> i128 {
        let v = if neg { v + n } else { v };
        v.max(lo).min(hi)
    };
    // "-0" counts from the end
    let neg0 = |a: Option<&&[u8]>| a.map_or(false, |b| b.starts_with(b"-"));
    let mut i = match start {
        Some(v) => fix(v, neg0(args.first())),
        None => if step > 0 { lo } else { hi },
    };
    let e = match stop {
        Some(v) => fix(v, neg0(args.get(1))),
        None => if step > 0 { hi } else { lo },
    };
    let mut o = vec![];
    while (step > 0 && i < e) || (step < 0 && i > e) {
        o.push(i as usize);
        i += step;
    }
    Some(o)
}
pub fn ref_add(inp: &[&[u8]], sub: bool) -> Option<Vec<u8>> {
    let n = inp[0].len();
    if inp.iter().any(|v| v.len() != n) {
        return None;
    }
    let mut acc: Vec<i32> = inp[0].iter().map(|b| *b as i32).collect();
    for x in &inp[1..] {
        // schoolbook with explicit borrow / carry
        let mut carry = 0i32;
        for k in (0..n).rev() {
            let mut v = if sub { acc[k] - x[k] as i32 - carry } else { acc[k] + x[k] as i32 + carry };
            carry = 0;
            if v < 0 {
                v += 256;
                carry = 1
            }
            if v > 255 {
                v -= 256;
                carry = 1
            }
            acc[k] = v;
        }
        if carry == 1 {
            return Some(vec![if sub { 0 } else { 255 }; n]);
        }
    }
    Some(acc.into_iter().map(|v| v as u8).collect())
}
pub fn be(v: u128, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect()
}
pub fn le(v: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| (v >> (8 * i)) as u8).collect()
}
pub fn un_be(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u128)
}
pub fn maxof(n: usize) -> u128 {
    if n >= 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}
fn width(id: &str) -> Option<usize> {
    Some(match id {
        "u8" | "lu8" => 1,
        "u16" | "lu16" => 2,
        "u32" | "lu32" => 4,
        "u64" | "lu64" => 8,
        "u128" | "lu128" => 16,
        _ => return None,
    })
}
pub const FUNCS: &[(&str, usize, usize)] = &[
    ("?a", 1, 1), ("?a0", 1, 1), ("a", 1, 3), ("f", 1, 3), ("lpad", 1, 3), ("rpad", 1, 3),
    ("~lpad", 1, 3), ("~rpad", 1, 3), ("lcut", 1, 2), ("rcut", 1, 2), ("~lcut", 1, 2), ("~rcut", 1, 2),
    ("lfixed", 1, 3), ("rfixed", 1, 3), ("replace", 3, 3), ("slice", 1, 4), ("~utf8", 1, 1),
    ("+", 1, 16), ("-", 1, 16), ("u8", 1, 1), ("u16", 1, 1), ("u32", 1, 1), ("u64", 1, 1), ("u128", 1, 1),
    ("?u", 1, 1), ("lu", 1, 1), ("lu8", 1, 1), ("lu16", 1, 1), ("lu32", 1, 1), ("lu64", 1, 1), ("lu128", 1, 1), ("?lu", 1, 1),
    ("b2", 1, 1), ("b8", 1, 1), ("b16", 1, 1), ("?b", 1, 1), ("2mini", 1, 1), ("b", 1, 1), ("?bs", 1, 1), ("bs", 1, 1),
    ("C", 1, 16), ("size?", 3, 3), ("val?", 3, 3), ("eval", 1, 1), ("?", 2, 8), ("??", 2, 8), ("???", 2, 8),
];
pub const MACROS: &[&str] = &["or", "?", "~?", "e"];
pub const ENCODERS: &[&str] = &["a", "u8", "u16", "u32", "u64", "u128", "b2", "b16", "b", "bs"];

pub struct Basic;
impl RScope for Basic {
    fn func(&self, id: &[u8], a: &[&[u8]], _init: bool, top: &dyn RScope) -> R {
        let Some((name, lo, hi)) = FUNCS.iter().find(|f| f.0.as_bytes() == id) else {
            return R::None;
        };
        if a.len() < *lo || a.len() > *hi {
            return R::Err;
        }
        let out: Option<Vec<u8>> = match *name {
            "?a" => Some(esc(a[0]).into_bytes()),
            "?a0" => Some(esc(cut0(a[0])).into_bytes()),
            "a" | "lpad" => ref_pad(a, true, 0, true, false),
            "f" => ref_pad(a, true, 255, true, false),
            "rpad" => ref_pad(a, false, 0, true, false),
            "~lpad" => ref_pad(a, true, 0, false, false),
            "~rpad" => ref_pad(a, false, 0, false, false),
            "lfixed" => ref_pad(a, true, 0, false, true),
            "rfixed" => ref_pad(a, false, 0, false, true),
            "lcut" => ref_cut(a, true, true),
            "rcut" => ref_cut(a, false, true),
            "~lcut" => ref_cut(a, true, false),
            "~rcut" => ref_cut(a, false, false),
            "replace" => Some(ref_replace(a[0], a[1], a[2])),
            "slice" => ref_slice_idx(a[0].len(), &a[1..]).map(|i| i.into_iter().map(|i| a[0][i]).collect()),
            "~utf8" => Some(String::from_utf8_lossy(a[0]).into_owned().into_bytes()),
            "+" => ref_add(a, false),
            "-" => ref_add(a, true),
            "u8" | "u16" | "u32" | "u64" | "u128" => {
                let w = width(name).unwrap();
                num(a[0], maxof(w)).map(|v| be(v, w))
            }
            "lu8" | "lu16" | "lu32" | "lu64" | "lu128" => {
                let w = width(name).unwrap();
                num(a[0], maxof(w)).map(|v| le(v, w))
            }
            "lu" => num(a[0], u128::MAX).map(|v| {
                let mut b = le(v, 16);
                while b.last() == Some(&0) {
                    b.pop();
                }
                b
            }),
            "?u" => (a[0].len() <= 16).then(|| un_be(a[0]).to_string().into_bytes()),
            "?lu" => (a[0].len() <= 16).then(|| {
                let r: Vec<u8> = a[0].iter().rev().copied().collect();
                un_be(&r).to_string().into_bytes()
            }),
            "b2" | "b8" | "b16" => {
                let r = name[1..].parse().unwrap();
                radix(a[0], r).map(|v| {
                    let b = be(v, 16);
                    let c = cut0(&b);
                    if c.is_empty() { vec![0] } else { c.to_vec() }
                })
            }
            "?b" => Some(b64url(a[0]).into_bytes()),
            "2mini" => Some(mini(a[0]).into_bytes()),
            "b" => b64url_dec(a[0]),
            "?bs" => Some(b64std(a[0]).into_bytes()),
            "bs" => b64std_dec(a[0]),
            "C" => Some(vec![]),
            "size?" => num(a[2], u64::MAX as u128)
                .filter(|n| a[1] == b"=" && *n == a[0].len() as u128)
                .map(|_| a[0].to_vec()),
            "val?" => (a[1] == b"=" && a[0] == a[2]).then(|| a[0].to_vec()),
            "eval" => parse(a[0], false).ok().and_then(|l| eval(top, &l).ok()).map(|l| join(&l)),
            "?" | "??" | "???" => {
                if a.len() > 2 || std::str::from_utf8(a[1]).is_err() {
                    None
                } else {
                    encode(top, a[0], a[1], false).map(|s| {
                        let s = s.into_bytes();
                        if *name == "?" || !(s.first() == Some(&b'[') && s.last() == Some(&b']') && s.len() >= 2) {
                            return s;
                        }
                        let inner = s[1..s.len() - 1].to_vec();
                        if *name == "??" {
                            return inner;
                        }
                        match inner.iter().position(|c| *c == b':') {
                            Some(i) => inner[i + 1..].to_vec(),
                            None => vec![],
                        }
                    })
                }
            }
            _ => unreachable!(),
        };
        out.into()
    }
    fn mac(&self, id: &[u8], l: &[A], top: &dyn RScope) -> R {
        match std::str::from_utf8(id) {
            Ok("or") => {
                let mut it = l.split(|a| *a == COLON);
                if !it.next().map_or(true, |h| h.is_empty()) {
                    return R::Err;
                }
                for alt in it {
                    if let Ok(v) = eval(top, alt) {
                        return R::Val(join(&v));
                    }
                }
                R::Err
            }
            Ok("e") => {
                if l.first() != Some(&COLON) {
                    return R::Err;
                }
                eval(top, &l[1..]).ok().map(|v| join(&v)).into()
            }
            Ok(m @ ("?" | "~?")) => {
                if l.first() != Some(&COLON) {
                    return R::Err;
                }
                let l = &l[1..];
                let (val, opts): (&[A], &[A]) = match l.iter().position(|a| *a == SLASH) {
                    Some(i) => (&l[..i], &l[i + 1..]),
                    None => (l, &[]),
                };
                match eval(top, val) {
                    Err(_) => R::Err,
                    Ok(v) => encode_abe(top, &join(&v), opts, m == "~?").map(|s| s.into_bytes()).into(),
                }
            }
            _ => R::None,
        }
    }
    fn enc(&self, id: &[u8], opts: &[A], b: &[u8]) -> R<String> {
        let Some(id) = ENCODERS.iter().find(|e| e.as_bytes() == id) else {
            return R::None;
        };
        match *id {
            "a" => {
                let c = esc(cut0(b));
                R::Val(if b.len() == 16 { format!("[a:{c}]") } else { format!("[a:{c}:{}]", b.len()) })
            }
            "u8" | "u16" | "u32" | "u64" | "u128" => {
                if b.len() == width(id).unwrap() {
                    R::Val(format!("[{id}:{}]", un_be(b)))
                } else {
                    R::None
                }
            }
            "bs" => R::Val(format!("[bs:{}]", b64std(b).replace('/', "\\/"))),
            "b" => {
                if opts.is_empty() {
                    return R::Val(format!("[b:{}]", b64url(b)));
                }
                for o in opts {
                    if let A::B(t) = o {
                        match num(t, u32::MAX as u128) {
                            None => return R::Err,
                            Some(n) if n == b.len() as u128 => return R::Val(format!("[b:{}]", b64url(b))),
                            _ => {}
                        }
                    }
                }
                R::None
            }
            "b2" | "b16" => {
                let mut sizes = vec![];
                for o in opts {
                    match o {
                        A::B(t) => match num(t, u64::MAX as u128) {
                            Some(n) => sizes.push(n),
                            None => return R::Err,
                        },
                        _ => return R::Err,
                    }
                }
                if !sizes.is_empty() && !sizes.contains(&(b.len() as u128)) {
                    return R::None;
                }
                // only values that decode back: minimal big-endian of at most 128 bits
                let minimal = b == [0] || (!b.is_empty() && b[0] != 0);
                if !minimal || b.len() > 16 {
                    return R::None;
                }
                R::Val(if *id == "b2" {
                    format!("[b2:{}]", b.iter().map(|x| format!("{x:08b}")).collect::<String>())
                } else {
                    format!("[b16:{}]", b.iter().map(|x| format!("{x:02X}")).collect::<String>())
                })
            }
            _ => unreachable!(),
        }
    }
}
