//! Number sets: TestSet / Bound / Mask, the UInt arithmetic below them, depth sets and stamp ranges.
use fw::*;
use linkspace_core::predicate::bitset_test::BitTestSet;
use linkspace_core::predicate::*;
use linkspace_core::stamp_range::{IterCmp, StampRange};
use linkspace_pkt::{Stamp, AB, B64, U256, U512};
use proptest::collection::vec;
use proptest::prelude::*;
use std::cmp::Ordering;

pub trait Num: UInt {
    const N: usize;
    fn of(b: &[u8]) -> Self;
}
macro_rules! native { ($($t:ty),*) => { $(impl Num for $t {
    const N: usize = std::mem::size_of::<$t>();
    fn of(b: &[u8]) -> Self { <$t>::from_be_bytes(b.try_into().unwrap()) }
})* } }
native!(u8, u16, u32, u64, u128);
impl Num for U256 {
    const N: usize = 32;
    fn of(b: &[u8]) -> Self {
        U256::from_be_bytes::<32>(b.try_into().unwrap())
    }
}
impl Num for U512 {
    const N: usize = 64;
    fn of(b: &[u8]) -> Self {
        U512::from_be_bytes::<64>(b.try_into().unwrap())
    }
}
impl Num for B64<[u8; 32]> {
    const N: usize = 32;
    fn of(b: &[u8]) -> Self {
        B64(b.try_into().unwrap())
    }
}
impl Num for AB<[u8; 16]> {
    const N: usize = 16;
    fn of(b: &[u8]) -> Self {
        AB(b.try_into().unwrap())
    }
}
/// reference numbers: big endian bytes
pub type Big = Vec<u8>;
pub fn be<U: UInt>(u: U) -> Big {
    u.to_be_vec()
}
pub fn r_add(a: &[u8], b: &[u8]) -> (Big, bool) {
    let mut o = a.to_vec();
    let mut c = 0u16;
    for i in (0..a.len()).rev() {
        let s = a[i] as u16 + b[i] as u16 + c;
        o[i] = s as u8;
        c = s >> 8;
    }
    (o, c != 0)
}
pub fn r_sub(a: &[u8], b: &[u8]) -> (Big, bool) {
    let mut o = a.to_vec();
    let mut c = 0i16;
    for i in (0..a.len()).rev() {
        let s = a[i] as i16 - b[i] as i16 - c;
        o[i] = s as u8;
        c = (s < 0) as i16;
    }
    (o, c != 0)
}
pub fn one(n: usize) -> Big {
    let mut o = vec![0; n];
    o[n - 1] = 1;
    o
}
pub fn r_inc(a: &[u8]) -> Option<Big> {
    let (v, o) = r_add(a, &one(a.len()));
    (!o).then_some(v)
}
pub fn r_dec(a: &[u8]) -> Option<Big> {
    let (v, o) = r_sub(a, &one(a.len()));
    (!o).then_some(v)
}
fn bit(a: &[u8], i: usize) -> bool {
    // i = 0 is the least significant
    a[a.len() - 1 - i / 8] >> (i % 8) & 1 == 1
}
fn setbit(a: &mut [u8], i: usize, v: bool) {
    let n = a.len();
    let m = 1 << (i % 8);
    if v {
        a[n - 1 - i / 8] |= m
    } else {
        a[n - 1 - i / 8] &= !m
    }
}
/// reference set: the conjunction of the statements
#[derive(Clone, Debug)]
pub struct RSet {
    pub n: usize,
    pub stmts: Vec<(TestOp, Big)>,
}
impl RSet {
    pub fn test(&self, v: &[u8]) -> bool {
        self.stmts.iter().all(|(o, s)| match o {
            TestOp::Nop => true,
            TestOp::Equal => v == &s[..],
            TestOp::Less => v < &s[..],
            TestOp::Greater => v > &s[..],
            TestOp::Mask0 => v.iter().zip(s).all(|(v, s)| v & !s == 0),
            TestOp::Mask1 => v.iter().zip(s).all(|(v, s)| s & !v == 0),
        })
    }
    /// (lowest, highest) by the orderings alone, None when they exclude everything
    pub fn range(&self) -> Option<(Big, Big)> {
        let (mut lo, mut hi) = (vec![0; self.n], vec![255; self.n]);
        for (o, s) in &self.stmts {
            match o {
                TestOp::Equal => {
                    lo = lo.max(s.clone());
                    hi = hi.min(s.clone());
                }
                TestOp::Less => hi = hi.min(r_dec(s)?),
                TestOp::Greater => lo = lo.max(r_inc(s)?),
                _ => {}
            }
        }
        (lo <= hi).then_some((lo, hi))
    }
    /// the least member that is at least `from`
    pub fn least(&self, from: &[u8]) -> Option<Big> {
        let (lo, hi) = self.range()?;
        let from = lo.max(from.to_vec());
        let n = self.n * 8;
        let (mut allow, mut need) = (vec![255u8; self.n], vec![0u8; self.n]);
        for (o, s) in &self.stmts {
            for i in 0..self.n {
                match o {
                    TestOp::Mask0 => allow[i] &= s[i],
                    TestOp::Mask1 => need[i] |= s[i],
                    _ => {}
                }
            }
        }
        let ok = |v: &[u8], above: usize| {
            // are the bits from `above` upward acceptable
            (above..n).all(|i| (!bit(v, i) || bit(&allow, i)) && (bit(v, i) || !bit(&need, i)))
        };
        if ok(&need, 0) == false {
            return None;
        }
        let cand = if ok(&from, 0) {
            Some(from)
        } else {
            (0..n).find_map(|p| {
                if bit(&from, p) || !ok(&from, p + 1) || !bit(&allow, p) {
                    return None;
                }
                let mut c = from.clone();
                setbit(&mut c, p, true);
                for i in 0..p {
                    setbit(&mut c, i, bit(&need, i));
                }
                Some(c)
            })
        };
        cand.filter(|c| *c <= hi)
    }
}
pub const OPS: [TestOp; 6] = [TestOp::Nop, TestOp::Equal, TestOp::Less, TestOp::Greater, TestOp::Mask0, TestOp::Mask1];
pub fn op() -> BoxedStrategy<TestOp> {
    prop_oneof![1 => Just(TestOp::Nop), 2 => Just(TestOp::Equal), 4 => Just(TestOp::Less), 4 => Just(TestOp::Greater), 4 => Just(TestOp::Mask0), 4 => Just(TestOp::Mask1)].boxed()
}
pub fn big(n: usize) -> BoxedStrategy<Big> {
    prop_oneof![
        4 => vec(any::<u8>(), n),
        1 => Just(vec![0; n]),
        1 => Just(vec![255; n]),
        3 => (0u8..32).prop_map(move |v| { let mut o = vec![0; n]; o[n - 1] = v; o }),
        2 => (0u8..32).prop_map(move |v| { let mut o = vec![255; n]; o[n - 1] = !v; o }),
        2 => (0..n * 8).prop_map(move |i| { let mut o = vec![0; n]; setbit(&mut o, i, true); o }),
        2 => (0..n * 8).prop_map(move |i| { let mut o = vec![255; n]; setbit(&mut o, i, false); o }),
        2 => (0..n * 8, any::<bool>()).prop_map(move |(i, b)| { let mut o = vec![0; n]; for j in 0..=i { setbit(&mut o, j, true) } if b { o.iter_mut().for_each(|v| *v = !*v) } o }),
        2 => (vec(any::<u8>(), n), vec(any::<u8>(), n)).prop_map(|(a, b)| a.iter().zip(b).map(|(a, b)| a | b).collect()),
    ]
    .boxed()
}
/// statements and values to probe; values sit on and next to statement values
fn case(n: usize) -> BoxedStrategy<(Vec<(TestOp, Big)>, Vec<Big>)> {
    let stmts = (vec((op(), big(n)), 0..6), any::<bool>(), big(n)).prop_map(move |(mut s, soft, base)| {
        if soft {
            // masks and bounds that leave something: derived from one value
            for (o, v) in &mut s {
                match o {
                    TestOp::Mask0 => *v = v.iter().zip(&base).map(|(a, b)| a | b).collect(),
                    TestOp::Mask1 => *v = v.iter().zip(&base).map(|(a, b)| a & b).collect(),
                    TestOp::Equal => *v = base.clone(),
                    TestOp::Less if *v <= base => *v = r_inc(&base).unwrap_or(base.clone()),
                    TestOp::Greater if *v >= base => *v = r_dec(&base).unwrap_or(base.clone()),
                    _ => {}
                }
            }
        }
        s
    });
    (stmts, vec(big(n), 1..4))
        .prop_map(move |(s, mut p)| {
            for (_, v) in &s {
                p.push(v.clone());
                p.extend(r_inc(v));
                p.extend(r_dec(v));
                p.push(v.iter().map(|b| !b).collect());
            }
            p.push(vec![0; n]);
            p.push(vec![255; n]);
            (s, p)
        })
        .boxed()
}
fn sets<U: Num>((stmts, probes): &(Vec<(TestOp, Big)>, Vec<Big>), o: &mut Obs) -> Res {
    let r = RSet { n: U::N, stmts: stmts.clone() };
    let min = vec![0; U::N];
    let any = r.least(&min);
    let mut t = TestSet::<U>::DEFAULT;
    let mut sofar = RSet { n: U::N, stmts: vec![] };
    for (op, v) in stmts {
        let mut t2 = t;
        sofar.stmts.push((*op, v.clone()));
        let mut mask = t.mask;
        mask.add(*op, U::of(v));
        if !mask.has_any() {
            // a set that is no longer anything: it has to say so
            let r = no_panic(|| {
                let refused = t2.try_add(*op, U::of(v)).is_err();
                refused && t2.is_empty() && t2.min_value().is_none()
            });
            if r != Ok(true) {
                return Err(fail_sig("conflicting-masks", format!("after {:?}: {}", sofar.stmts, if r.is_err() { "panics" } else { "not empty" })));
            }
        }
        let ok = t2.try_add(*op, U::of(v)).is_ok();
        t.add(*op, U::of(v));
        ensure_eq!(ok, sofar.least(&min).is_some(), "try_add {op:?} {v:?} accepts");
        if ok {
            ensure!(t2 == t, "try_add and add give different sets");
        }
    }
    o.nontrivial(!stmts.is_empty() && any.is_some());
    o.class_if(any.is_none(), "empty set");
    o.class_if(any.is_some() && stmts.iter().any(|(o, _)| matches!(o, TestOp::Mask0 | TestOp::Mask1)), "masked nonempty");
    ensure_eq!(t.has_any(), any.is_some(), "has_any");
    ensure_eq!(t.is_empty(), any.is_none(), "is_empty");
    ensure_eq!(t.min_value().map(be), any, "min_value");
    if let Some(a) = t.as_eq() {
        if any.is_some() {
            ensure_eq!(Some(be(a)), any, "as_eq");
        }
    }
    let again: Vec<(TestOp, U)> = t.rules().collect();
    let mut t2 = TestSet::<U>::DEFAULT;
    for (op, v) in &again {
        t2.add(*op, *v)
    }
    if any.is_some() {
        ensure!(t2 == t, "rules() rebuild another set: {again:?}");
    } else {
        ensure!(t2.is_empty(), "rules() of an empty set rebuild a nonempty one: {again:?}");
    }
    let (eq, l, g, m0, m1) = t.unpack();
    let mapped: TestSet<Big> = t.map(be);
    for p in probes {
        let u = U::of(p);
        let want = r.test(p);
        ensure_eq!(t.test(u), want, "test {p:?}");
        ensure_eq!(t2.test(u), want, "test through rules {p:?}");
        let (b, m) = (t.bound.test(u), t.mask.test(&u));
        ensure_eq!(b && m, want, "bound and mask of {p:?}");
        let un = eq.iter().all(|x| x.test(&u)) && l.iter().all(|x| x.test(&u)) && g.iter().all(|x| x.test(&u)) && m0.iter().all(|x| x.test(&u)) && m1.iter().all(|x| x.test(&u));
        if t.bound.has_any() {
            ensure_eq!(un, want, "unpacked tests of {p:?}");
        }
        ensure_eq!(*p >= mapped.bound.low && *p <= mapped.bound.high, b, "mapped bound of {p:?}");
        if any.is_some() {
            let i = t.info(u);
            ensure_eq!(i.in_set, want, "info({p:?}).in_set");
            ensure_eq!(i.val.map(be), r.least(p), "info({p:?}).val");
            o.class_if(!want && i.val.is_some(), "jump to a later member");
            // members in order
            let got: Vec<Big> = t.enumerate(u).take(12).map(be).collect();
            let mut wantv = vec![];
            let mut at = Some(p.clone());
            while let Some(a) = at {
                let Some(v) = r.least(&a) else { break };
                at = r_inc(&v);
                wantv.push(v);
                if wantv.len() == 12 {
                    break;
                }
            }
            ensure_eq!(got, wantv, "enumerate from {p:?}");
        }
        // membership from p on, up to the greatest number
        let mut it = t.iter(u);
        let mut at_c = u;
        let mut via: Vec<bool> = vec![];
        {
            let mut c = t.iter_contains(&mut at_c);
            for _ in 0..12 {
                match c.next() {
                    Some(v) => via.push(v),
                    None => break,
                }
            }
        }
        let mut at = Some(p.clone());
        for k in 0..12 {
            let Some(a) = at.take() else { break };
            if a.iter().all(|b| *b == 255) {
                break; // the last number repeats
            }
            let (pk, nx) = (it.peek(), it.next());
            ensure_eq!(pk, nx, "peek differs from next at {a:?}");
            ensure_eq!(via.get(k).copied(), nx, "iter_contains differs from iter at {a:?}");
            match nx {
                Some(v) => {
                    ensure_eq!(v, r.test(&a), "membership of {a:?}");
                    ensure!(r.range().map_or(true, |(_, hi)| a <= hi), "membership goes on beyond the bound at {a:?}");
                }
                None => {
                    ensure!(r.least(&a).is_none(), "membership ends at {a:?} while members remain");
                    o.class("membership ends");
                    break;
                }
            }
            at = r_inc(&a);
        }
        if via.len() < 12 && r.range().is_some() && p[..] != vec![255; U::N] {
            // the position it stopped at is where it can go on
            let stop = be(at_c);
            let k = via.len();
            let mut w = p.clone();
            for _ in 0..k {
                w = r_inc(&w).unwrap_or(w)
            }
            ensure_eq!(stop, w, "iter_contains leaves the position after {k} items");
        }
    }
    // single equality
    for p in probes {
        let u = U::of(p);
        let e = TestSet::<U>::new_eq(u);
        ensure!(e.as_eq() == Some(u) && e.test(u), "new_eq {p:?}");
        for q in probes {
            ensure_eq!(e.test(U::of(q)), p == q, "new_eq {p:?} tests {q:?}");
        }
    }
    Ok(())
}
fn bounds<U: Num>((a, b, c, probes): &(Big, Big, (Big, Big), Vec<Big>), o: &mut Obs) -> Res {
    let (ua, ub) = (U::of(a), U::of(b));
    let x = Bound::<U>::from(ua..=ub);
    let (lo, hi) = (a.min(b), a.max(b));
    ensure_eq!((be(x.low), be(x.high)), (lo.clone(), hi.clone()), "Bound::from");
    ensure!(x.has_any(), "a range holds its ends");
    ensure_eq!(x.less().map(be), r_inc(hi), "less");
    ensure_eq!(x.greater().map(be), r_dec(lo), "greater");
    ensure_eq!(x.as_eq().map(be), (lo == hi).then(|| lo.clone()), "as_eq");
    let y = Bound::<U>::from(U::of(&c.0)..=U::of(&c.1));
    let (ylo, yhi) = (c.0.clone().min(c.1.clone()), c.0.clone().max(c.1.clone()));
    let (clo, chi) = (lo.clone().max(ylo.clone()), hi.clone().min(yhi.clone()));
    o.nontrivial(true);
    for (p, q, n) in [(x, y, "x.try_combine(y)"), (y, x, "y.try_combine(x)")] {
        match p.try_combine(q) {
            // judged last
            Ok(_) if p.low > q.high => {}
            Ok(r) => {
                ensure!(clo <= chi, "{n}: disjoint ranges {lo:?}..{hi:?} {ylo:?}..{yhi:?} combine to {r:?}");
                ensure_eq!((be(r.low), be(r.high)), (clo.clone(), chi.clone()), "{n}");
            }
            Err(_) => {
                ensure!(clo > chi, "{n}: overlapping ranges {lo:?}..{hi:?} {ylo:?}..{yhi:?} refused");
                o.class("disjoint");
            }
        }
    }
    let mut back = Bound::<U>::DEFAULT;
    for (op, v) in x.iter() {
        back.add(op, v)
    }
    ensure_eq!(back, x, "bound rebuilt from its rules");
    for p in probes {
        let want = if p < lo { Ordering::Less } else if p > hi { Ordering::Greater } else { Ordering::Equal };
        ensure_eq!(x.bound_cmp(U::of(p)), want, "bound_cmp {p:?} in {lo:?}..={hi:?}");
        ensure_eq!(x.test(U::of(p)), want == Ordering::Equal, "test {p:?}");
    }
    let mut z = x;
    ensure_eq!(be(z.take_high_bound()), *hi, "take_high_bound");
    ensure_eq!(z, Bound { low: x.low, high: U::MAX }, "after take_high_bound");
    let mut z = x;
    ensure_eq!(be(z.take_low_bound()), *lo, "take_low_bound");
    ensure_eq!(z, Bound { low: U::MIN, high: x.high }, "after take_low_bound");
    for (op, v) in [(TestOp::Equal, &c.0), (TestOp::Less, &c.0), (TestOp::Greater, &c.1)] {
        let mut z = x;
        let r = RSet { n: U::N, stmts: vec![(TestOp::Greater, vec![]), (op, v.clone())].split_off(1) };
        let w = r.range().map(|(a, b)| (a.max(lo.clone()), b.min(hi.clone()))).filter(|(a, b)| a <= b);
        let ok = z.try_add(op, U::of(v)).is_ok();
        ensure_eq!(ok.then(|| (be(z.low), be(z.high))), w, "{lo:?}..={hi:?} try_add {op:?} {v:?}");
    }
    for (p, q) in [(x, y), (y, x)] {
        if p.low > q.high && p.try_combine(q).is_ok() {
            return Err(fail_sig("combine-above", format!("{p:?}.try_combine({q:?}) of ranges that share nothing")));
        }
    }
    Ok(())
}
fn arith<U: Num>((a, b, sh): &(Big, Big, u32), o: &mut Obs) -> Res {
    let (x, y) = (U::of(a), U::of(b));
    let n = U::N;
    let bits = n as u32 * 8;
    ensure_eq!(U::BITS, bits, "BITS");
    ensure_eq!(be(x), *a, "big endian bytes");
    ensure_eq!((be(U::MIN), be(U::MAX), be(U::ONE)), (vec![0; n], vec![255; n], one(n)), "constants");
    let z = |f: fn(u8, u8) -> u8| -> Big { a.iter().zip(b).map(|(a, b)| f(*a, *b)).collect() };
    ensure_eq!(be(x.bit_and(y)), z(|a, b| a & b), "and");
    ensure_eq!(be(x.bit_or(y)), z(|a, b| a | b), "or");
    ensure_eq!(be(UInt::not(x)), z(|a, _| !a), "not");
    ensure_eq!(x.cmp(&y), a.cmp(b), "order");
    ensure_eq!(x.inc().map(be), r_inc(a), "inc");
    ensure_eq!(x.decr().map(be), r_dec(a), "decr");
    let (s, so) = r_add(a, b);
    let (d, dov) = r_sub(a, b);
    ensure_eq!(UInt::checked_add(x, y).map(be), (!so).then(|| s.clone()), "checked_add");
    ensure_eq!(UInt::checked_sub(x, y).map(be), (!dov).then(|| d.clone()), "checked_sub");
    let (v, ov) = UInt::overflowing_add(x, y);
    ensure_eq!((be(v), ov), (s, so), "overflowing_add");
    o.nontrivial(true);
    o.class_if(so, "carry out");
    o.class_if(dov, "borrow out");
    let k = sh % bits;
    let mut l = vec![0; n];
    let mut r = vec![0; n];
    for i in 0..bits {
        if i >= k {
            setbit(&mut l, i as usize, bit(a, (i - k) as usize))
        }
        if i + k < bits {
            setbit(&mut r, i as usize, bit(a, (i + k) as usize))
        }
    }
    let (v, ov) = UInt::overflowing_shl(x, *sh);
    ensure_eq!((be(v), ov), (l, *sh >= bits), "shl {sh}");
    let (v, ov) = UInt::overflowing_shr(x, *sh);
    ensure_eq!((be(v), ov), (r, *sh >= bits), "shr {sh}");
    let cnt = |want: bool, msb: bool| (0..bits as usize).take_while(|i| bit(a, if msb { bits as usize - 1 - i } else { *i }) == want).count() as u32;
    ensure_eq!(UInt::leading_zeros(&x), cnt(false, true), "leading_zeros");
    ensure_eq!(UInt::leading_ones(&x), cnt(true, true), "leading_ones");
    ensure_eq!(UInt::trailing_zeros(&x), cnt(false, false), "trailing_zeros");
    ensure_eq!(UInt::trailing_ones(&x), cnt(true, false), "trailing_ones");
    // byte string arithmetic
    let mut m = a.clone();
    let ok = u8_be::add_one(&mut m).is_some();
    ensure_eq!((ok, m), (r_inc(a).is_some(), r_add(a, &one(n)).0), "add_one");
    let mut m = a.clone();
    let ok = u8_be::sub_one(&mut m).is_some();
    ensure_eq!((ok, m), (r_dec(a).is_some(), r_sub(a, &one(n)).0), "sub_one");
    if n == 16 {
        let (x, y): ([u8; 16], [u8; 16]) = (a[..].try_into().unwrap(), b[..].try_into().unwrap());
        ensure_eq!(u8_be::add(x, y).map(|v| v.to_vec()), (!so).then(|| r_add(a, b).0), "u8_be::add");
        ensure_eq!(u8_be::sub(x, y).map(|v| v.to_vec()), (!dov).then(|| d.clone()), "u8_be::sub");
        ensure_eq!(u8_be::cmp(x, y), a.cmp(b), "u8_be::cmp");
    }
    Ok(())
}
fn pair(n: usize) -> BoxedStrategy<(Big, Big, u32)> {
    (big(n), big(n), prop_oneof![0u32..600, 0..n as u32 * 8], 0u8..5)
        .prop_map(|(a, b, s, near)| match near {
            0 => (a.clone(), a, s),
            1 => (a.clone(), r_inc(&a).unwrap_or(b), s),
            2 => (a.clone(), a.iter().map(|v| !v).collect(), s),
            _ => (a, b, s),
        })
        .boxed()
}
fn bcase(n: usize) -> BoxedStrategy<(Big, Big, (Big, Big), Vec<Big>)> {
    (big(n), big(n), (big(n), big(n)), 0u8..4, vec(big(n), 0..3))
        .prop_map(|(a, b, c, near, mut p)| {
            let (lo, hi) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
            let c = match near {
                0 => (hi.clone(), c.1),
                1 => (r_inc(&hi).unwrap_or(c.0), c.1),
                2 => (r_dec(&lo).unwrap_or(c.0), c.1),
                _ => c,
            };
            for v in [&a, &b] {
                p.push(v.clone());
                p.extend(r_inc(v));
                p.extend(r_dec(v));
            }
            (a, b, c, p)
        })
        .boxed()
}
/// every u8 set made of one range and one mask
fn all_u8(i: u64) -> Res {
    let (lo, hi) = ((i >> 8) as u8, i as u8);
    let masks: Vec<(u8, u8)> = {
        let mut z = i.wrapping_mul(0x9E3779B97F4A7C15);
        (0..6)
            .map(|_| {
                z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
                ((z >> 3) as u8 & (z >> 17) as u8, (z >> 33) as u8 | (z >> 45) as u8)
            })
            .chain([(0, 255), (hi, 255), (0, hi)])
            .collect()
    };
    for (ones, zeros) in masks {
        // masks in conflict are judged elsewhere
        let ones = ones & zeros;
        let mut t = TestSet::<u8>::DEFAULT;
        if let Some(l) = lo.checked_sub(1) {
            t.add(TestOp::Greater, l)
        }
        if let Some(h) = hi.checked_add(1) {
            t.add(TestOp::Less, h)
        }
        t.add(TestOp::Mask1, ones);
        t.add(TestOp::Mask0, zeros);
        let member = |v: u8| v >= lo && v <= hi && v & ones == ones && v & !zeros == 0;
        let d = || format!("{lo}..={hi} ones {ones:#010b} zeros {zeros:#010b}");
        let m: Vec<u8> = (0..=255).filter(|v| member(*v)).collect();
        ensure_eq!(t.min_value(), m.first().copied(), "{}: min_value", d());
        ensure_eq!(t.has_any(), !m.is_empty(), "{}: has_any", d());
        for v in 0..=255u8 {
            if t.test(v) != member(v) {
                return Err(format!("{}: test {v}", d()).into());
            }
            if !m.is_empty() {
                let want = m.iter().find(|x| **x >= v).copied();
                let got = t.info(v);
                ensure!(got.val == want && got.in_set == member(v), "{}: info {v} is {got:?}", d());
            }
        }
        if !m.is_empty() {
            ensure_eq!(t.enumerate(0).take(300).collect::<Vec<_>>(), m, "{}: enumerate", d());
        }
    }
    Ok(())
}
fn all_masks(i: u64) -> Res {
    let (ones, zeros) = ((i >> 8) as u8, i as u8);
    let m = Mask { ones, zeros };
    let any = ones & !zeros == 0;
    ensure_eq!(m.has_any(), any, "{m:?} has_any");
    if !any {
        return Ok(());
    }
    for v in 0..=255u8 {
        ensure_eq!(m.test(&v), v & ones == ones && v & !zeros == 0, "{m:?} test {v}");
        let want = (v..=255).find(|v| v & ones == ones && v & !zeros == 0);
        ensure_eq!(m.in_set(v), want, "{m:?} in_set {v}");
    }
    ensure_eq!((m.min_val(), m.max_val()), (ones, zeros), "{m:?} extremes");
    Ok(())
}
// ---------------------------------------------------------------- depth sets
fn depths((els, ge, shift, other): &(Vec<u8>, u32, u8, Vec<u8>), o: &mut Obs) -> Res {
    let s: BitTestSet = BitTestSet::from_el_iter(els.iter().copied());
    let has = |v: u8| v < 32 && els.contains(&v);
    o.nontrivial(els.len() > 1);
    let t2: BitTestSet = BitTestSet::from_el_iter(other.iter().copied());
    for v in 0..=40u8 {
        ensure_eq!(s.contains(v), has(v), "contains {v}");
        ensure_eq!(s.next_depth(v), (v + 1..32).find(|x| has(*x)), "next_depth {v}");
        ensure_eq!(s.contains_min(v), (v..32).any(has), "contains_min {v}");
        let i = s.info(v);
        ensure_eq!((i.in_set, i.val), (has(v), (v..32).find(|x| has(*x))), "info {v}");
        ensure_eq!(s.and(t2).contains(v), has(v) && v < 32 && other.contains(&v), "and {v}");
        ensure_eq!(BitTestSet::<8>::greater_eq(*ge).contains(v), v as u32 >= *ge && v < 8, "greater_eq {ge} {v}");
        if let Some(sh) = s.checked_shift(*shift) {
            ensure_eq!(sh.contains(v), v < 32 && v >= *shift && has(v - shift), "shift {shift} {v}");
        } else {
            ensure!(*shift >= 32, "shift {shift} refused");
        }
    }
    let overlap = (0..32).any(|v| has(v) && other.contains(&v));
    match s.try_combine(t2) {
        Ok(c) => ensure!(overlap && c == s.and(t2), "try_combine"),
        Err(_) => ensure!(!overlap, "try_combine refuses overlapping sets"),
    }
    Ok(())
}
fn depth_rules((stmts, _): &(Vec<(TestOp, Big)>, Vec<Big>), o: &mut Obs) -> Res {
    let mut t = TestSet::<u8>::DEFAULT;
    for (op, v) in stmts {
        // weight towards the depths that exist
        let v = if matches!(op, TestOp::Mask0 | TestOp::Mask1) { v[0] } else { v[0] % 10 };
        let mut mask = t.mask;
        mask.add(*op, v);
        if mask.has_any() {
            t.add(*op, v)
        }
    }
    let b = BitTestSet::<8>::from_rules(&t);
    o.nontrivial(b.0 != 0 && b.0 != 511);
    for v in 0..=8 {
        ensure_eq!(b.contains(v), t.test(v), "depth {v}");
    }
    for v in 9..40 {
        ensure!(!b.contains(v), "depth {v} does not exist");
    }
    Ok(())
}
// ---------------------------------------------------------------- stamp ranges
fn stamp() -> BoxedStrategy<u64> {
    prop_oneof![any::<u64>(), 0u64..20, (0u64..20).prop_map(|v| u64::MAX - v), Just(0), Just(u64::MAX)].boxed()
}
fn ranges((s, e, probes): &(u64, u64, Vec<u64>), o: &mut Obs) -> Res {
    let r = StampRange::new_u64s(*s, *e);
    ensure_eq!(r, StampRange::new(Stamp::new(*s), Stamp::new(*e)), "new");
    ensure_eq!((r.lower_bound().get(), r.upper_bound().get()), (*s.min(e), *s.max(e)), "ends");
    ensure_eq!(r.rev(), StampRange::new_u64s(*e, *s), "rev");
    ensure_eq!((r.is_ascending(), r.is_new_first()), (s < e, s >= e), "direction");
    o.nontrivial(s != e);
    for p in probes.iter().chain([s, e]) {
        let inside = p >= s.min(e) && p <= s.max(e);
        ensure_eq!(r.contains_u64(*p), inside, "contains {p}");
        ensure_eq!(r.contains(Stamp::new(*p)), inside, "contains {p}");
        // walking from start to end, where is p
        let w = if inside {
            IterCmp::In
        } else if (s <= e) == (p < s) {
            IterCmp::Pre
        } else {
            IterCmp::Post
        };
        ensure_eq!(r.iter_cmp_u64(*p), w, "iter_cmp {p} in {r:?}");
        ensure_eq!(r.iter_cmp(Stamp::new(*p)), w, "iter_cmp {p} in {r:?}");
        if *p < u64::MAX {
            let a = StampRange::after(Stamp::new(*p));
            for q in probes {
                ensure_eq!(a.contains_u64(*q), q > p, "after {p} contains {q}");
            }
        }
        let a = StampRange::asc_from(Stamp::new(*p));
        for q in probes.iter().chain([p]) {
            ensure_eq!(a.contains_u64(*q), q >= p, "asc_from {p} contains {q}");
        }
        let b = Bound::<u64>::from(*s..=*e);
        for asc in [true, false] {
            let sr = b.stamp_range(asc);
            ensure_eq!(sr.contains_u64(*p), inside, "bound as stamp range");
            ensure!(s == e || sr.is_ascending() == asc, "direction of a bound's stamp range");
        }
    }
    let txt = r.to_string();
    match txt.parse::<StampRange>() {
        Ok(b) => ensure_eq!(b, r, "printed {txt:?} reads back"),
        Err(e) => return Err(format!("{r:?} prints {txt:?} which does not parse: {e}").into()),
    }
    for (t, want) in [
        (format!("{s}.."), StampRange::new_u64s(*s, 0)),
        (format!("..{e}"), StampRange::new_u64s(u64::MAX, *e)),
        ("..".into(), StampRange::ALL_DSC),
        (format!("{s}..++"), StampRange::new_u64s(*s, u64::MAX)),
        (format!("--..{e}"), StampRange::new_u64s(0, *e)),
    ] {
        ensure_eq!(t.parse::<StampRange>().ok(), Some(want), "{t:?}");
    }
    ensure!("now..0".parse::<StampRange>().is_err(), "relative stamp without a now");
    Ok(())
}
macro_rules! each { ($f:ident, $g:expr, $q:expr, $t:expr, $($n:literal $u:ty),*) => { vec![$(sub($n, $q / (1 + <$u as Num>::N as u64 / 16), $t / (1 + <$u as Num>::N as u64 / 16), || $g(<$u as Num>::N), $f::<$u>)),*] } }
pub fn props() -> Vec<Property> {
    let mut s1 = each!(sets, case, 40_000, 2_000_000, "u8" u8, "u16" u16, "u32" u32, "u64" u64, "u128" u128, "u256" U256, "u512" U512, "b64" B64<[u8; 32]>, "ab" AB<[u8; 16]>);
    s1.extend(each!(bounds, bcase, 20_000, 1_000_000, "bound_u8" u8, "bound_u16" u16, "bound_u64" u64, "bound_u256" U256, "bound_ab" AB<[u8; 16]>));
    s1.push(fixed("every_mask", (0..65536u64).collect(), |i, o| {
        o.nontrivial(true);
        all_masks(*i)
    }));
    s1.push(fixed("every_range", (0..65536u64).collect(), |i, o| {
        let (lo, hi) = (i >> 8, i & 255);
        if lo > hi {
            return Ok(());
        }
        o.nontrivial(true);
        all_u8(*i)
    }));
    vec![
        Property { id: "D01", rule: "the set is nonempty and has at least one statement", assumptions: &[], subs: s1 },
        Property {
            id: "D02",
            rule: "every pair counts",
            assumptions: &[],
            subs: each!(arith, pair, 60_000, 3_000_000, "u8" u8, "u16" u16, "u32" u32, "u64" u64, "u128" u128, "u256" U256, "u512" U512, "b64" B64<[u8; 32]>, "ab" AB<[u8; 16]>),
        },
        Property {
            id: "D03",
            rule: "more than one depth; a set of depths that is neither empty nor all; a range with two ends",
            assumptions: &[],
            subs: vec![
                sub("depths", 20_000, 1_000_000, || (vec(prop_oneof![0u8..10, 0u8..40], 0..8), 0u32..40, 0u8..40, vec(0u8..36, 0..8)), depths),
                sub("depth_rules", 20_000, 1_000_000, || case(1), depth_rules),
                sub("ranges", 40_000, 2_000_000, || {
                    (stamp(), stamp(), vec(stamp(), 1..4), any::<bool>()).prop_map(|(a, b, mut p, near)| {
                        let b = if near { a.saturating_add(b % 4) } else { b };
                        for v in [a, b] {
                            p.extend([v.saturating_add(1), v.saturating_sub(1)])
                        }
                        (a, b, p)
                    })
                }, ranges),
            ],
        },
    ]
}
