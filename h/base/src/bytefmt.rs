//! B01 fixed-size text fields, B02 base64 fields, B03 endian integers.
use crate::gen::*;
use crate::refabe::*;
use abe::eval::ABList;
use abe::{ToABE, TypedABE, ABE};
use byte_fmt::endian_types::*;
use byte_fmt::{ab, abx, ab_slice, as_abtxt_c, b64, try_ab, AB, B64, U256, U512};
use fw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::cmp::Ordering;
use std::str::FromStr;

fn evaluates(l: &[ABE]) -> Option<Vec<Comp>> {
    abe::eval::eval(&abe::scope::basic_scope(), l).ok().map(|v| comps_real(&v))
}
/// what an expression written for a value must evaluate to: exactly these bytes, by the
/// evaluator and by the reference evaluator
fn expr_is(l: &[ABE], b: &[u8], what: &str) -> Res {
    let want = Some(vec![(None, b.to_vec())]);
    let ok = |got: Option<Vec<Comp>>| got == want || (b.is_empty() && got.as_ref().map_or(false, |v| v.iter().all(|c| c.0.is_none() && c.1.is_empty())));
    let got = evaluates(l);
    ensure!(ok(got.clone()), "{what}: evaluates to {got:?} want {b:?}");
    let got = eval(&Basic, &from_reals(l)).ok();
    ensure!(ok(got.clone()), "{what}: reference evaluates to {got:?} want {b:?}");
    Ok(())
}
fn text_is(s: &str, b: &[u8], what: &str) -> Res {
    let l = abe::parse_abe_strict_b(s.as_bytes()).map_err(|e| format!("{what}: {s:?} does not parse: {e:?}"))?;
    let r = parse(s.as_bytes(), false).map_err(|e| format!("{what}: {s:?} is not an expression: {e:?}"))?;
    ensure_eq!(from_reals(&l), r, "{what}: {s:?} parsed");
    expr_is(&l, b, &format!("{what} {s:?}"))
}
fn comps(b: &[u8], mode: u8) -> Vec<Comp> {
    match mode % 6 {
        0..=2 => vec![(None, b.to_vec())],
        3 => vec![(Some(b':'), b.to_vec())],
        4 => vec![(None, b[..b.len() / 2].to_vec()), (Some(b'/'), b[b.len() / 2..].to_vec())],
        _ => vec![(None, b.to_vec()), (Some(b':'), vec![])],
    }
}
fn ablist(c: &[Comp]) -> ABList {
    let mut v = vec![];
    for (d, b) in c {
        if let Some(d) = d {
            v.push(A::C(*d))
        }
        v.push(A::B(b.clone()));
    }
    abe::eval::eval(&abe::scope::basic_scope(), &to_reals(&v)).unwrap()
}


fn padded(b: &[u8], fill: u8, n: usize) -> Option<Vec<u8>> {
    (b.len() <= n).then(|| [vec![fill; n - b.len()], b.to_vec()].concat())
}
// ------------------------------------------------------------------ B01
fn ab_n<const N: usize>(b: &[u8], text: &[u8], mode: u8, o: &mut Obs) -> Res {
    // fit
    let want = padded(b, 0, N);
    ensure_eq!(AB::<[u8; N]>::try_fit_byte_slice(b).ok().map(|v| v.0.to_vec()), want, "fit {b:?} in {N}");
    ensure_eq!(try_ab::<N>(b).ok().map(|v| v.0.to_vec()), want, "try_ab {b:?} in {N}");
    ensure_eq!(AB::<[u8; N]>::try_from(b).ok().map(|v| v.0.to_vec()), want, "try_from {b:?} in {N}");
    ensure_eq!(abe::fit_back::<0, N>(b).ok().map(|v| v.to_vec()), want, "fit_back {b:?} in {N}");
    ensure_eq!(abe::fit_back::<7, N>(b).ok().map(|v| v.to_vec()), padded(b, 7, N), "fit_back 7 {b:?} in {N}");
    ensure_eq!(AB::<[u8; N]>::try_fit_slice_filled::<255>(b).ok().map(|v| v.0.to_vec()), padded(b, 255, N), "fit filled {b:?} in {N}");
    ensure_eq!(no_panic(|| ab::<N>(b)).ok().map(|v| v.0.to_vec()), want, "ab {b:?} in {N}");
    ensure_eq!(no_panic(|| abx::<N>(b)).ok().map(|v| v.0.to_vec()), padded(b, 255, N), "abx {b:?} in {N}");
    let mut front = b.to_vec();
    front.resize(N.max(b.len()), 0);
    ensure_eq!(abe::fit_front::<N>(b).ok().map(|v| v.to_vec()), (b.len() <= N).then_some(front), "fit_front {b:?} in {N}");
    ensure_eq!(abe::fit::<N>(b).ok().map(|v| v.to_vec()), (b.len() == N).then(|| b.to_vec()), "fit {b:?} exactly in {N}");
    if let Err(e) = AB::<[u8; N]>::try_fit_byte_slice(b) {
        ensure_eq!((e.size, e.got.ok()), (Some(N), Some(b.len())), "error of fit {b:?} in {N}");
        let _ = e.to_string();
    }
    // evaluated lists
    let c = comps(b, mode);
    let l = ablist(&c);
    let exact = c.len() == 1 && c[0].0.is_none();
    ensure_eq!(AB::<[u8; N]>::try_from(l.clone()).ok().map(|v| v.0.to_vec()), want.clone().filter(|_| exact), "from list {c:?} in {N}");
    // a value of the field
    let full: [u8; N] = match &want {
        Some(w) => w.clone().try_into().unwrap(),
        None => b[b.len() - N..].try_into().unwrap(),
    };
    field(AB(full), &full)?;
    let filled: [u8; N] = std::array::from_fn(|i| if i + b.len() < N { 255 } else { b[b.len() - (N - i)] });
    field(AB(filled), &filled)?;
    let back: Vec<u8> = ABList::from(AB(full)).unwrap_comps();
    ensure_eq!(back, full.to_vec(), "list of field");
    ensure_eq!(AB::<[u8; N]>::try_from(ABList::from(AB(full))).ok(), Some(AB(full)), "field as list and back");
    // reading text
    let v = AB(full);
    let s = v.to_string();
    for (what, t) in [("display", s.clone()), ("debug", format!("{v:?}")), ("as_str", v.as_str(false).into_owned()), ("cut", v.as_str(true).into_owned())] {
        ensure_eq!(AB::<[u8; N]>::parse_abtxt(&t).ok(), Some(v), "reading {what} of {full:?}");
        ensure_eq!(AB::<[u8; N]>::from_str(&t).ok(), Some(v), "reading {what} of {full:?}");
    }
    ensure_eq!(s, esc(&full), "display");
    let read = unesc(text).and_then(|t| padded(&t, 0, N));
    ensure_eq!(AB::<[u8; N]>::parse_abtxt(text).ok().map(|v| v.0.to_vec()), read, "reading {:?} into {N}", bstr::BStr::new(text));
    if let Ok(t) = std::str::from_utf8(text) {
        ensure_eq!(t.parse::<AB<[u8; N]>>().ok().map(|v| v.0.to_vec()), read, "reading {t:?} into {N}");
    }
    // cut forms
    let cut = cut0(&full);
    ensure_eq!(v.cut_prefix_nulls(), cut, "cut_prefix_nulls");
    ensure_eq!(v.as_ref_cut(true), cut, "as_ref_cut");
    ensure_eq!(v.as_ref_cut(false), &full[..], "as_ref_cut(false)");
    ensure_eq!(v.as_str(true), esc(cut), "as_str(true)");
    ensure_eq!(as_abtxt_c(&full, true), esc(cut), "as_abtxt_c");
    ensure_eq!(as_abtxt_c(&full, false), esc(&full), "as_abtxt_c");
    let utf = std::str::from_utf8(cut).ok();
    ensure_eq!(v.utf8().ok(), utf, "utf8");
    ensure_eq!(v.try_utf8().into_owned(), utf.map(|s| s.to_string()).unwrap_or(esc(cut)), "try_utf8");
    o.class_if(b.len() > N, "too long");
    o.class_if(b.len() < N, "padded");
    o.class_if(full.first() == Some(&255), "leading 0xff");
    o.class_if(read.is_some() && !text.is_empty(), "text read");
    o.class_if(read.is_none(), "text refused");
    Ok(())
}
fn field<const N: usize>(v: AB<[u8; N]>, b: &[u8]) -> Res {
    expr_is(&v.to_abe(), b, &format!("to_abe of {b:?}"))?;
    text_is(&v.to_abe_str(), b, &format!("to_abe_str of {b:?}"))?;
    let t: TypedABE<AB<[u8; N]>> = v.to_abe_str().parse().map_err(|e| format!("typed {b:?}: {e}"))?;
    ensure_eq!(t.eval(&abe::scope::basic_scope()).ok(), Some(v), "typed expression of {b:?}");
    Ok(())
}
trait UnwrapComps {
    fn unwrap_comps(&self) -> Vec<u8>;
}
impl UnwrapComps for ABList {
    fn unwrap_comps(&self) -> Vec<u8> {
        join(&comps_real(self))
    }
}
fn any_ab((b, text, n, mode): &(Vec<u8>, Vec<u8>, usize, u8), o: &mut Obs) -> Res {
    macro_rules! go { ($($i:literal => $n:literal),*) => { match n % 16 { $($i => { ab_n::<$n>(b, text, *mode, o)?; $n })* _ => unreachable!() } } }
    let n: usize = go!(0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 7, 7 => 8, 8 => 9, 9 => 15, 10 => 16, 11 => 17, 12 => 24, 13 => 31, 14 => 32, 15 => 64);
    o.nontrivial(n > 0 && !b.is_empty() && b.len() <= n);
    // growable text
    ensure_eq!(AB::<Vec<u8>>::from_str(&esc(b)).ok(), Some(AB(b.clone())), "growable text of {b:?}");
    if let Ok(t) = std::str::from_utf8(text) {
        ensure_eq!(t.parse::<AB<Vec<u8>>>().ok().map(|v| v.0), unesc(text), "growable text {t:?}");
    }
    ensure_eq!(AB::from_ref(b).0, *b, "from_ref");
    let parts: Vec<&[u8]> = vec![b, text];
    ensure_eq!(ab_slice(&parts).iter().map(|p| p.0).collect::<Vec<_>>(), parts, "ab_slice");
    let r: &AB<[u8]> = (&b[..]).into();
    ensure_eq!(&r.0, &b[..], "ref from slice");
    ensure_eq!(AB(&b[..]).parse::<u32>().ok(), esc(b).parse::<u32>().ok(), "parse of {b:?}");
    ensure_eq!(AB(&b[..]).parse_scope::<u64>().map_err(|e| e.to_string()).ok(), esc(b).parse::<u64>().ok(), "parse_scope of {b:?}");
    ensure_eq!(abe::cut_prefixeq::<255>(b), &b[b.iter().take_while(|x| **x == 255).count()..], "cut_prefixeq");
    ensure_eq!(abe::cut_ending_nulls2(b), &b[..b.len() - b.iter().rev().take_while(|x| **x == 0).count()], "cut_ending_nulls");
    Ok(())
}
fn ab_u128((v, w): &(u128, u128), o: &mut Obs) -> Res {
    let a: AB<[u8; 16]> = (*v).into();
    ensure_eq!(a.0.to_vec(), be(*v, 16), "from_u128");
    ensure_eq!(AB::from_u128(*v), a, "from_u128");
    ensure_eq!((a.to_u128(), u128::from(a)), (*v, *v), "to_u128");
    let b = AB::from_u128(*w);
    ensure_eq!(a.cmp(&b), v.cmp(w), "order");
    ensure_eq!(a.uint().get(), *v, "uint");
    let n = *v as u64;
    ensure_eq!(AB(n.to_be_bytes()).uint(), U64::new(n), "uint");
    ensure_eq!(AB((n as u32).to_be_bytes()).uint(), U32::new(n as u32), "uint");
    ensure_eq!(AB((n as u16).to_be_bytes()).uint(), U16::new(n as u16), "uint");
    o.nontrivial(*v > 255);
    Ok(())
}
// ------------------------------------------------------------------ B02
fn b64_n<const N: usize>(b: &[u8], text: &[u8], mode: u8, o: &mut Obs) -> Res {
    let full: [u8; N] = std::array::from_fn(|i| if b.is_empty() { 0 } else { b[i % b.len()] });
    let v = B64(full);
    let s = b64url(&full);
    let mut buf = String::from("x");
    v.b64_into(&mut buf);
    ensure_eq!((v.to_string(), format!("{v:?}"), v.b64(), b64(&full, false), buf), (s.clone(), s.clone(), s.clone(), s.clone(), format!("x{s}")), "text of {full:?}");
    ensure_eq!((v.b64_mini(), b64(&full, true)), (mini(&full), mini(&full)), "short text of {full:?}");
    ensure_eq!(s.parse::<B64<[u8; N]>>().ok(), Some(v), "reading {s}");
    // candidate text
    let read = b64url_dec(text).filter(|t| t.len() == N);
    let exact = <[u8; N]>::try_from(b).ok();
    ensure_eq!(B64::<[u8; N]>::parse_str(text).ok().map(|v| v.0.to_vec()), read, "reading {:?} into {N}", bstr::BStr::new(text));
    if let Ok(t) = std::str::from_utf8(text) {
        ensure_eq!(B64::<[u8; N]>::from_str(t).ok().map(|v| v.0.to_vec()), read, "reading {t:?} into {N}");
    }
    ensure_eq!(B64::<Vec<u8>>::parse_str(text).ok().map(|v| v.0), b64url_dec(text), "reading {:?}", bstr::BStr::new(text));
    ensure_eq!(B64::<[u8; N]>::try_fit_slice(b).ok().map(|v| v.0), exact, "fit {b:?} in {N}");
    ensure_eq!(B64::<[u8; N]>::try_from(b).ok().map(|v| v.0), exact, "try_from {b:?} in {N}");
    for (src, t) in [("text", text), ("bytes", b), ("own text", s.as_bytes()), ("own bytes", &full[..])] {
        let want = b64url_dec(t).filter(|t| t.len() == N).or((t.len() == N).then(|| t.to_vec()));
        ensure_eq!(B64::<[u8; N]>::try_fit_bytes_or_b64(t).ok().map(|v| v.0.to_vec()), want, "{src} {t:?} into {N}");
        let c = comps(t, mode);
        let want = want.filter(|_| c.len() == 1 && c[0].0.is_none());
        o.class_if(want.is_some(), "accepted");
        ensure_eq!(B64::<[u8; N]>::try_from(ablist(&c)).ok().map(|v| v.0.to_vec()), want, "{src} list {c:?} into {N}");
    }
    expr_is(&v.to_abe(), &full, &format!("to_abe of {full:?}"))?;
    text_is(&v.to_abe_str(), &full, &format!("to_abe_str of {full:?}"))?;
    let t: TypedABE<B64<[u8; N]>> = v.to_abe_str().parse().map_err(|e| format!("typed {b:?}: {e}"))?;
    // raw bytes of N that happen to be canonical text of N bytes cannot exist (lengths differ) unless N == 0
    ensure_eq!(t.eval(&abe::scope::basic_scope()).ok(), Some(v), "typed expression of {full:?}");
    ensure_eq!(ABList::from(v).unwrap_comps(), full.to_vec(), "list of field");
    ensure_eq!((v.inner(), B64::from_ref(&full).0), (full, full), "inner");
    o.class_if(read.is_some(), "text read");
    o.class_if(read.is_none(), "text refused");
    Ok(())
}
fn any_b64((b, text, n, mode): &(Vec<u8>, Vec<u8>, usize, u8), o: &mut Obs) -> Res {
    macro_rules! go { ($($i:literal => $n:literal),*) => { match n % 14 { $($i => { b64_n::<$n>(b, text, *mode, o)?; $n })* _ => unreachable!() } } }
    let n: usize = go!(0 => 1, 1 => 2, 2 => 3, 3 => 4, 4 => 5, 5 => 6, 6 => 8, 7 => 15, 8 => 16, 9 => 17, 10 => 31, 11 => 32, 12 => 33, 13 => 64);
    o.nontrivial(!b.is_empty() && n > 1);
    Ok(())
}
fn b64_case() -> BoxedStrategy<(Vec<u8>, Vec<u8>, usize, u8)> {
    const NS: [usize; 14] = [1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 31, 32, 33, 64];
    (0..14usize)
        .prop_flat_map(|i| {
            let n = NS[i];
            let exact = vec(any::<u8>(), n..=n);
            let near = vec(any::<u8>(), n.saturating_sub(2)..=n + 2);
            let text = prop_oneof![
                2 => near.clone().prop_map(|b| b64url(&b).into_bytes()),
                1 => (near.clone(), mutate()).prop_map(|(b, m)| { let mut t = b64url(&b).into_bytes(); apply_mut(&mut t, &m); t }),
                2 => (exact.clone(), any::<u16>(), prop::sample::select(b"AZaz09-_+/=B.".to_vec())).prop_map(|(b, i, c)| { let mut t = b64url(&b).into_bytes(); let n = t.len(); t[i as usize % n] = c; t }),
                // the last character, where unused bits must be zero
                2 => (exact.clone(), prop::sample::select(b"ABCDEFGHQRghwxyz0189-_".to_vec())).prop_map(|(b, c)| { let mut t = b64url(&b).into_bytes(); *t.last_mut().unwrap() = c; t }),
                1 => near.clone().prop_map(|b| b64std(&b).into_bytes()),
                1 => near.clone(),
                1 => vec(prop::sample::select(b"AZaz09-_QgwB".to_vec()), n..=n),
                1 => b64_text(false),
            ];
            let raw = prop_oneof![3 => exact, 1 => near, 1 => vec(prop::sample::select(b"AZaz09-_QgwB".to_vec()), n..=n), 1 => bytes(70)];
            (raw, text, Just(i), any::<u8>())
        })
        .boxed()
}
fn be_trailing_zeros(b: &[u8]) -> u32 {
    let n = b.iter().rev().take_while(|b| **b == 0).count();
    if n == b.len() { 8 * n as u32 } else { 8 * n as u32 + b[b.len() - 1 - n].trailing_zeros() }
}
fn b64_int((x, y): &(Vec<u8>, Vec<u8>), o: &mut Obs) -> Res {
    let a: [u8; 32] = x[..32].try_into().unwrap();
    let b: [u8; 32] = y[..32].try_into().unwrap();
    let xor: Vec<u8> = a.iter().zip(&b).map(|(a, b)| a ^ b).collect();
    ensure_eq!((B64(a) ^ B64(b)).0.to_vec(), xor, "xor");
    // value through base 256
    let mut want = U256::ZERO;
    for d in a {
        want = want.wrapping_mul(U256::from(256)).wrapping_add(U256::from(d));
    }
    ensure_eq!(B64(a).to_u256(), want, "to_u256");
    ensure_eq!({ let v: U256 = B64(a).into(); v }, want, "into U256");
    ensure_eq!((B64::from_u256(want).0, B64::from(want).0), (a, a), "from_u256");
    let c: [u8; 64] = [a, b].concat().try_into().unwrap();
    let mut want = U512::ZERO;
    for d in c {
        want = want.wrapping_mul(U512::from(256)).wrapping_add(U512::from(d));
    }
    ensure_eq!({ let v: U512 = B64(c).into(); v }, want, "into U512");
    ensure_eq!(B64::<[u8; 64]>::from(want).0, c, "from U512");
    // every magnitude: the same digits behind ever more leading zeros
    for k in 1..=64 {
        let mut z = c;
        z[..k].fill(0);
        let v: U512 = B64(z).into();
        ensure_eq!(B64::<[u8; 64]>::from(v).0, z, "through U512 with {k} leading zeros");
        let y: [u8; 32] = z[32..].try_into().unwrap();
        ensure_eq!(B64::from_u256(B64(y).to_u256()).0, y, "through U256");
        ensure_eq!(v.trailing_zeros() as u32, be_trailing_zeros(&z), "value of U512 with {k} leading zeros");
    }
    ensure_eq!(B64(a).into_bytes(), a, "into_bytes");
    ensure_eq!(B64(c).into_bytes(), c, "into_bytes");
    let words = [u128::from_ne_bytes(a[..16].try_into().unwrap()), u128::from_ne_bytes(a[16..].try_into().unwrap())];
    ensure_eq!(B64(words).into_bytes(), a, "into_bytes of words");
    let w = B64(words);
    let r: &[u8; 32] = w.as_ref();
    ensure_eq!(*r, a, "words as bytes");
    ensure_eq!(B64(a).cmp(&B64(b)), a.cmp(&b), "order");
    o.nontrivial(a != b);
    Ok(())
}
// ------------------------------------------------------------------ B03
macro_rules! endian {
    ($fun:ident, $t:ident, $nat:ident, $n:literal, $le:literal, $alt:ident, $fname:literal) => {
        fn $fun(x: u128, y: u128, text: &[u8], b: &[u8], mode: u8, o: &mut Obs) -> Res {
            let name = stringify!($t);
            let max = if $n == 16 { u128::MAX } else { (1u128 << (8 * $n)) - 1 };
            let (x, y) = (x & max, y & max);
            let (p, q) = ($t::new(x as $nat), $t::new(y as $nat));
            let enc = |v: u128| if $le { le(v, $n) } else { be(v, $n) };
            let val = |t: $t| { let mut v = t.0.to_vec(); if $le { v.reverse() } un_be(&v) };
            ensure_eq!(p.0.to_vec(), enc(x), "{name} bytes of {x}");
            ensure_eq!(p.to_bytes().to_vec(), enc(x), "{name} to_bytes");
            ensure_eq!(p.as_ref().to_vec(), enc(x), "{name} as_ref");
            ensure_eq!((*p).to_vec(), enc(x), "{name} deref");
            let arr: [u8; $n] = p.into();
            ensure_eq!(arr.to_vec(), enc(x), "{name} into array");
            ensure_eq!($t::from(arr), p, "{name} from array");
            ensure_eq!(p.get() as u128, x, "{name} get");
            let nat: $nat = p.into();
            ensure_eq!(nat as u128, x, "{name} into native");
            ensure_eq!($t::from(x as $nat), p, "{name} from native");
            ensure_eq!(p.align(), [$nat::from_ne_bytes(p.0)], "{name} align");
            let mut z = q;
            z.set(x as $nat);
            ensure_eq!(z, p, "{name} set");
            ensure_eq!((val($t::MAX), val($t::ZERO), val($t::default())), (max, 0, 0), "{name} MAX and ZERO");
            ensure_eq!(p.cmp(&q), x.cmp(&y), "{name} {x} against {y}");
            ensure_eq!(p.partial_cmp(&q), Some(x.cmp(&y)), "{name} {x} against {y}");
            ensure_eq!((p < q, p <= q, p > q, p >= q, p == q), (x < y, x <= y, x > y, x >= y, x == y), "{name} {x} against {y}");
            ensure_eq!(val(p.max(q)), x.max(y), "{name} max");
            ensure_eq!(val(p.saturating_add(q)), x.checked_add(y).map_or(max, |s| s.min(max)), "{name} {x} + {y}");
            ensure_eq!(val(p.saturating_sub(q)), x.checked_sub(y).unwrap_or(0), "{name} {x} - {y}");
            ensure_eq!(val(p.incr()), x.checked_add(1).map_or(max, |s| s.min(max)), "{name} {x} + 1");
            ensure_eq!((val(p & q), val(p | q), val(!p)), (x & y, x | y, max ^ x), "{name} bits of {x} {y}");
            ensure_eq!(p.to_string(), x.to_string(), "{name} display");
            ensure_eq!(format!("{p:>45}"), format!("{x:>45}"), "{name} display width");
            let bits: String = enc(x).iter().map(|b| format!("_{b:08b}")).collect();
            ensure_eq!(format!("{p:b}"), format!("0b{bits}"), "{name} binary");
            ensure_eq!(binary_str(&p.0), format!("0b{bits}"), "{name} binary");
            let dbg = format!("{p:?}");
            if x != max { ensure_eq!(dbg, format!("{x}{}", name.to_lowercase()), "{name} debug"); }
            ensure_eq!(x.to_string().parse::<$t>().ok(), Some(p), "{name} parse");
            if let Ok(s) = std::str::from_utf8(text) {
                let want = num(text, max);
                // a leading plus sign is a matter of taste
                if !s.starts_with('+') {
                    ensure_eq!(s.parse::<$t>().ok().map(val), want, "{name} parse of {s:?}");
                    o.class_if(want.is_some(), "number read");
                    o.class_if(want.is_none(), "number refused");
                }
            }
            // the other byte order
            let alt: $alt = p.into();
            ensure_eq!(alt.get() as u128, x, "{name} other order");
            let mut rev = enc(x);
            rev.reverse();
            ensure_eq!(alt.0.to_vec(), rev, "{name} other order bytes");
            ensure_eq!($t::from(alt), p, "{name} other order and back");
            // bytes and lists
            ensure_eq!($t::try_from(b).ok().map(|v| v.0.to_vec()), (b.len() == $n).then(|| b.to_vec()), "{name} from slice {b:?}");
            let mut ext = b.to_vec();
            ext.resize($n.max(b.len()), 0);
            let fits = if $le { b.len() <= $n } else { b.len() == $n };
            let c = comps(b, mode);
            let exact = c.len() == 1 && c[0].0.is_none();
            ensure_eq!($t::try_from(ablist(&c)).ok().map(|v| v.0.to_vec()), (fits && exact).then_some(ext.clone()), "{name} from list {c:?}");
            let l = ABList::from(p);
            ensure_eq!($t::try_from(l.clone()).ok(), Some(p), "{name} as list {l:?}");
            if !$le { ensure_eq!(l.unwrap_comps(), enc(x), "{name} list bytes"); }
            // expression
            let mut bytes = enc(x);
            if $le && false { bytes.clear() }
            expr_is(&p.to_abe(), &bytes, &format!("{name} expression of {x}"))?;
            text_is(&p.to_abe_str(), &bytes, &format!("{name} expression of {x}"))?;
            let t: TypedABE<$t> = p.to_abe_str().parse().map_err(|e| format!("{name} {x}: {e}"))?;
            ensure_eq!(t.eval(&abe::scope::basic_scope()).ok(), Some(p), "{name} typed expression of {x}");
            o.class_if(x.cmp(&y) == Ordering::Less && enc(x).cmp(&enc(y)) != Ordering::Less, "order differs from byte order");
            o.class_if(x.checked_add(y).map_or(true, |s| s > max), "sum saturates");
            o.class_if(y > x, "difference saturates");
            o.nontrivial(x != 0 && y != 0 && x != y);
            Ok(())
        }
    };
}
endian!(e_u16, U16, u16, 2, false, LU16, "u16");
endian!(e_u32, U32, u32, 4, false, LU32, "u32");
endian!(e_u64, U64, u64, 8, false, LU64, "u64");
endian!(e_u128, U128, u128, 16, false, LU128, "u128");
endian!(e_lu16, LU16, u16, 2, true, U16, "lu16");
endian!(e_lu32, LU32, u32, 4, true, U32, "lu32");
endian!(e_lu64, LU64, u64, 8, true, U64, "lu64");
endian!(e_lu128, LU128, u128, 16, true, U128, "lu128");

fn any_endian((x, y, text, b, k, mode): &(u128, u128, Vec<u8>, Vec<u8>, u8, u8), o: &mut Obs) -> Res {
    let f = [e_u16, e_u32, e_u64, e_u128, e_lu16, e_lu32, e_lu64, e_lu128][*k as usize % 8];
    f(*x, *y, text, b, *mode, o)?;
    macro_rules! lu {
        ($($t:ident $nat:ident $n:literal),*) => {$({
            let v = $t::new(*x as $nat);
            let mut ext = b.to_vec();
            ext.resize($n.max(b.len()), 0);
            ensure_eq!($t::try_fit_slice(b).ok().map(|v| v.0.to_vec()), (b.len() <= $n).then_some(ext), "{} from short bytes {b:?}", stringify!($t));
            // the untyped little endian form evaluates to the same number
            let t = TypedABE::<$t>::from_unchecked(v.lu_abe());
            ensure_eq!(t.eval(&abe::scope::basic_scope()).ok(), Some(v), "lu expression of {}", *x as $nat);
        })*}
    }
    lu!(LU16 u16 2, LU32 u32 4, LU64 u64 8, LU128 u128 16);
    let u = U8::new(*x as u8);
    ensure_eq!(u8::from(u), *x as u8, "U8");
    expr_is(&u.to_abe(), &[*x as u8], "U8 expression")?;
    text_is(&u.to_abe_str(), &[*x as u8], "U8 expression")?;
    ensure_eq!(U8::try_from(ABList::from(u)).ok(), Some(u), "U8 as list");
    let c = comps(b, *mode);
    let exact = c.len() == 1 && c[0].0.is_none();
    ensure_eq!(U8::try_from(ablist(&c)).ok(), (exact && b.len() == 1).then(|| U8(b[0])), "U8 from {c:?}");
    Ok(())
}
fn ints() -> BoxedStrategy<u128> {
    prop_oneof![
        2 => any::<u128>(),
        2 => (0u32..=128, -2i64..=2).prop_map(|(s, d)| if s == 128 { u128::MAX.wrapping_sub(d.unsigned_abs() as u128) } else { (1u128 << s).wrapping_add(d as i128 as u128) }),
        1 => 0u128..=300,
        1 => vec(prop::sample::select(vec![0u8, 1, 0x7f, 0x80, 0xff, 0xfe]), 16..=16).prop_map(|b| un_be(&b)),
    ]
    .boxed()
}
fn bits8() -> Vec<u8> {
    (0..=255).collect()
}
pub fn props() -> Vec<Property> {

    let ab_text = || prop_oneof![3 => (bytes(70), vec(any::<u8>(), 0..=4)).prop_map(|(b, s)| styled(&b, &s).into_bytes()), 2 => any_text(), 1 => (bytes(20), mutate()).prop_map(|(b, m)| { let mut t = esc(&b).into_bytes(); apply_mut(&mut t, &m); t })];
    vec![
        Property {
            id: "B01",
            rule: "a non-empty byte string that fits a field of size > 0; or a number above 255",
            assumptions: &["sizes 0..=5, 7..=9, 15..=17, 24, 31, 32, 64"],
            subs: vec![
                sub("fields", 150_000, 3_000_000, move || (prop_oneof![3 => bytes(70), 1 => bytes(4), 1 => bytes(18)], ab_text(), any::<usize>(), any::<u8>()), any_ab),
                sub("ints", 100_000, 2_000_000, || (ints(), ints()), ab_u128),
            ],
        },
        Property {
            id: "B02",
            rule: "a field of more than one byte built from a non-empty byte string; or two different 32-byte values",
            assumptions: &["sizes 1..=6, 8, 15..=17, 31..=33, 64"],
            subs: vec![
                sub("fields", 200_000, 4_000_000, b64_case, any_b64),
                sub("ints", 60_000, 1_000_000, || (vec(special_byte().prop_union(any::<u8>().boxed()), 64..=64), vec(any::<u8>(), 64..=64)), b64_int),
            ],
        },
        Property {
            id: "B03",
            rule: "two different non-zero values",
            assumptions: &["a leading plus sign in decimal text is not decided"],
            subs: vec![
                sub("integers", 200_000, 4_000_000, || (ints(), ints(), dec_text(), prop_oneof![2 => bytes(18), 1 => (0usize..=17).prop_flat_map(|n| vec(special_byte(), n..=n))], any::<u8>(), any::<u8>()), any_endian),
                fixed("bits", bits8(), |b, o| {
                    o.nontrivial(*b > 0);
                    let u = U8(*b);
                    let t = TypedABE::<U8>::from_unchecked(u.abe_bits());
                    ensure_eq!(t.eval(&abe::scope::basic_scope()).ok(), Some(u), "bits expression of {b}");
                    Ok(())
                }),
            ],
        },
    ]
}
