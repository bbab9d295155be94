//! A04 pipelines, A05 scope resolution, A06-A09 functions, A14 arguments, A15 no crash
use crate::gen::*;
use crate::refabe::*;
use abe::ast::ABE;
use abe::eval::{self, ApplyResult, EScope, EvalError, EvalScopeImpl, Scope, ScopeFunc, ScopeFuncInfo, ScopeMacro, ScopeMacroInfo};
use abe::scope::BASIC_SCOPE;
use fw::{ensure, ensure_eq, fixed, sub, Fail, Obs, Property, Res};
use proptest::collection::vec;
use proptest::prelude::*;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ probe scope, real and reference
pub fn ser(name: &str, args: &[&[u8]], init: bool) -> Vec<u8> {
    let mut o = format!("<{name}{}", if init { "!" } else { "|" }).into_bytes();
    for a in args {
        o.extend(format!("{}=", a.len()).bytes());
        o.extend(*a);
        o.push(b',')
    }
    o.push(b'>');
    o
}
pub fn ser_abe(name: &str, l: &[A]) -> Vec<u8> {
    format!("<{name} {l:?}>").into_bytes()
}
pub struct Probe;
impl EvalScopeImpl for Probe {
    fn about(&self) -> (String, String) {
        ("probe".into(), "".into())
    }
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        macro_rules! f {
            ($id:literal, $argc:expr, $init:expr) => {
                ScopeFunc {
                    info: ScopeFuncInfo { id: $id, init_eq: $init, to_abe: false, argc: $argc, help: "" },
                    apply: |_, a: &[&[u8]], init, _| ApplyResult::Value(ser($id, a, init)),
                    to_abe: eval::none,
                }
            };
        }
        &[
            f!("p", 0..=16, None),
            f!("pi", 0..=16, Some(true)),
            f!("pn", 1..=16, Some(false)),
            f!("p2", 2..=2, None),
            f!("q", 0..=16, None),
        ]
    }
    fn list_macros(&self) -> &[ScopeMacro<&Self>] {
        &[ScopeMacro {
            info: ScopeMacroInfo { id: "pm", help: "" },
            apply: |_, l: &[ABE], _| ApplyResult::Value(ser_abe("pm", &from_reals(l))),
        }, ScopeMacro {
            info: ScopeMacroInfo { id: "", help: "" },
            apply: |_, l: &[ABE], _| ApplyResult::Value(ser_abe("", &from_reals(l))),
        }]
    }
}
impl RScope for Probe {
    fn func(&self, id: &[u8], a: &[&[u8]], init: bool, _: &dyn RScope) -> R {
        let Some((n, lo, hi)) = PROBES.iter().find(|p| p.0.as_bytes() == id) else {
            return R::None;
        };
        if (*n == "pi" && !init) || (*n == "pn" && init) || a.len() < *lo || a.len() > *hi {
            return R::Err;
        }
        R::Val(ser(n, a, init))
    }
    fn mac(&self, id: &[u8], l: &[A], _: &dyn RScope) -> R {
        match id {
            b"pm" => R::Val(ser_abe("pm", l)),
            b"" => R::Val(ser_abe("", l)),
            _ => R::None,
        }
    }
    fn enc(&self, _: &[u8], _: &[A], _: &[u8]) -> R<String> {
        R::None
    }
}
pub struct Both;
impl RScope for Both {
    fn func(&self, id: &[u8], a: &[&[u8]], init: bool, top: &dyn RScope) -> R {
        Basic.func(id, a, init, top).or_else(|| Probe.func(id, a, init, top))
    }
    fn mac(&self, id: &[u8], l: &[A], top: &dyn RScope) -> R {
        Basic.mac(id, l, top).or_else(|| Probe.mac(id, l, top))
    }
    fn enc(&self, id: &[u8], o: &[A], b: &[u8]) -> R<String> {
        Basic.enc(id, o, b)
    }
}
pub fn both() -> (abe::scope::BasicScope, EScope<Probe>) {
    (abe::scope::basic_scope(), EScope(Probe))
}
pub fn err_class(e: &EvalError) -> EErr {
    match e {
        EvalError::SubEval(id, _) => EErr::Macro(id.clone()),
        EvalError::NoSuchSubEval(id) => EErr::NoMacro(id.clone()),
        EvalError::NoSuchFunc(id) => EErr::NoFunc(id.clone()),
        EvalError::Func(id, _) => EErr::Func(id.clone()),
        EvalError::Other(_) => EErr::Other,
    }
}
/// the "help" function and macro are outside of the reference (decided by A17)
fn mentions_help(l: &[A]) -> bool {
    l.iter().any(|a| match a {
        A::L(l) => mentions_help(l),
        A::B(b) => b.windows(4).any(|w| w == b"help"),
        _ => false,
    })
}
fn programs(l: &Vec<A>, o: &mut Obs) -> Res {
    if mentions_help(l) {
        return Ok(());
    }
    take_too_big();
    let want = eval(&Both, l);
    if take_too_big() {
        o.class("skipped: requested length above 1 MiB");
        return Ok(());
    }
    let scope = both();
    let real = to_reals(l);
    let got = eval::eval(&scope, &real);
    match (&got, &want) {
        (Ok(g), Ok(w)) => ensure_eq!(comps_real(g), *w, "value of {}", print(l)),
        (Err(g), Err(w)) => ensure_eq!(err_class(g), *w, "error of {} ({g})", print(l)),
        (Ok(g), Err(w)) => return Err(format!("{} evaluates to {:?} but must fail with {w:?}", print(l), comps_real(g)).into()),
        (Err(g), Ok(w)) => return Err(format!("{} fails with '{g}' but must evaluate to {w:?}", print(l)).into()),
    }
    // error messages must be printable too
    if let Err(g) = &got {
        let _ = format!("{g} {g:?}");
    }
    if let Ok(g) = &got {
        // evaluating from text is the same thing
        let n = normal(l);
        if n == *l {
            let t = abe::parse_abe_strict_b(print(l).as_bytes()).map_err(|e| e.to_string())?;
            let again = eval::eval(&scope, &t).map_err(|e| format!("from text: {e}"))?;
            ensure!(again == *g, "evaluating the text of {} gives {again:?} instead of {g:?}", print(l));
        }
    }
    fn calls(l: &[A]) -> usize {
        l.iter().map(|a| if let A::L(x) = a { 1 + x.iter().filter(|a| **a == SLASH).count() + calls(x) } else { 0 }).sum()
    }
    o.nontrivial(calls(l) >= 2 && want != Err(EErr::Other));
    o.class(match &want {
        Ok(_) => "value",
        Err(EErr::Func(_)) => "function error",
        Err(EErr::NoFunc(_)) => "no such function",
        Err(EErr::Macro(_)) => "macro error",
        Err(EErr::NoMacro(_)) => "no such macro",
        Err(EErr::Other) => "shape error",
    });
    o.class_if(want.is_ok() && print(l).contains("[/"), "value through a macro");
    o.class_if(want.is_ok() && calls(l) >= 5, "value from 5+ calls");
    Ok(())
}
/// pipelines of probe calls with many arguments
fn arity_pipeline() -> BoxedStrategy<Vec<A>> {
    let part = (prop::sample::select(vec!["p", "pi", "pn", "p2", "q", "none", ""]), prop_oneof![0usize..4, 12usize..19], bytes(3));
    (any::<bool>(), vec(part, 1..4), vec(prop_oneof![Just(COLON), Just(SLASH), word().prop_map(A::B)], 0..3), any::<bool>())
        .prop_map(|(lit, parts, before, nest)| {
            let mut l = vec![];
            for (i, (f, n, b)) in parts.into_iter().enumerate() {
                if i > 0 {
                    l.push(SLASH)
                }
                if i == 0 && lit {
                    l.push(COLON)
                }
                if !f.is_empty() {
                    l.push(A::B(f.into()));
                }
                for k in 0..n {
                    l.push(COLON);
                    if nest && k == 1 {
                        l.push(A::L(vec![A::B(b"p".to_vec()), COLON, A::B(b.clone())]));
                    }
                    if !b.is_empty() || k % 2 == 0 {
                        l.push(A::B([b.clone(), vec![b'0' + (k % 10) as u8]].concat()));
                    }
                }
            }
            let mut o = before;
            o.push(A::L(l));
            o
        })
        .boxed()
}

// ------------------------------------------------------------------ A05
#[derive(Clone, Debug)]
pub struct FDesc {
    pub id: &'static str,
    pub init: Option<bool>,
    pub lo: usize,
    pub hi: usize,
    pub kind: u8, // 0 value, 1 no value, 2 error
    pub enc: bool,
}
#[derive(Clone, Debug)]
pub struct LeafDesc {
    pub n: u8,
    pub funcs: Vec<FDesc>,
    pub macros: Vec<(&'static str, u8)>,
}
pub struct Leaf {
    pub d: LeafDesc,
    funcs: Vec<ScopeFunc<&'static Leaf>>,
    macros: Vec<ScopeMacro<&'static Leaf>>,
}
fn lname(l: &LeafDesc, i: usize) -> String {
    format!("L{}.{i}", l.n)
}
fn kind_of<V>(k: u8, v: V) -> ApplyResult<V> {
    match k {
        0 => ApplyResult::Value(v),
        1 => ApplyResult::NoValue,
        _ => ApplyResult::Err(anyhow::anyhow!("probe error")),
    }
}
fn lf<const I: usize>(l: &'static Leaf, a: &[&[u8]], init: bool, _: &dyn Scope) -> ApplyResult {
    kind_of(l.d.funcs[I].kind, ser(&lname(&l.d, I), a, init))
}
fn lenc<const I: usize>(l: &'static Leaf, b: &[u8], opts: &[ABE]) -> ApplyResult<String> {
    kind_of(l.d.funcs[I].kind, format!("{}{b:?}{opts:?}", lname(&l.d, I)))
}
fn lm<const I: usize>(l: &'static Leaf, a: &[ABE], _: &dyn Scope) -> ApplyResult {
    kind_of(l.d.macros[I].1, ser_abe(&lname(&l.d, I), &from_reals(a)))
}
type LF = fn(&'static Leaf, &[&[u8]], bool, &dyn Scope) -> ApplyResult;
type LE = fn(&'static Leaf, &[u8], &[ABE]) -> ApplyResult<String>;
type LM = fn(&'static Leaf, &[ABE], &dyn Scope) -> ApplyResult;
const LFS: [LF; 5] = [lf::<0>, lf::<1>, lf::<2>, lf::<3>, lf::<4>];
const LES: [LE; 5] = [lenc::<0>, lenc::<1>, lenc::<2>, lenc::<3>, lenc::<4>];
const LMS: [LM; 3] = [lm::<0>, lm::<1>, lm::<2>];
impl Leaf {
    pub fn new(d: &LeafDesc) -> Leaf {
        Leaf {
            funcs: d
                .funcs
                .iter()
                .enumerate()
                .map(|(i, f)| ScopeFunc {
                    apply: LFS[i],
                    to_abe: LES[i],
                    info: ScopeFuncInfo { id: f.id, init_eq: f.init, to_abe: f.enc, argc: f.lo..=f.hi, help: "h" },
                })
                .collect(),
            macros: d
                .macros
                .iter()
                .enumerate()
                .map(|(i, m)| ScopeMacro { apply: LMS[i], info: ScopeMacroInfo { id: m.0, help: "h" } })
                .collect(),
            d: d.clone(),
        }
    }
}
impl EvalScopeImpl for Leaf {
    fn about(&self) -> (String, String) {
        (format!("leaf{}", self.d.n), "about".into())
    }
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        // same layout: only the lifetime of the receiver differs, and the functions do not keep it
        unsafe { std::mem::transmute::<&[ScopeFunc<&'static Leaf>], &[ScopeFunc<&Leaf>]>(&self.funcs) }
    }
    fn list_macros(&self) -> &[ScopeMacro<&Self>] {
        unsafe { std::mem::transmute::<&[ScopeMacro<&'static Leaf>], &[ScopeMacro<&Leaf>]>(&self.macros) }
    }
}
#[derive(Clone, Debug)]
pub enum Node {
    Leaf(LeafDesc),
    Unit,
    Pair(Box<Node>, Box<Node>),
    Triple(Box<Node>, Box<Node>, Box<Node>),
    OptSome(Box<Node>),
    OptNone,
    Ok(Box<Node>),
    Failed,
    Rc(Box<Node>),
    Arc(Box<Node>),
    Ref(Box<Node>),
    DynRef(Box<Node>),
    Lazy,
    Basic,
}
fn lazy_leaf() -> LeafDesc {
    LeafDesc {
        n: 99,
        funcs: vec![FDesc { id: "f", init: None, lo: 0, hi: 3, kind: 0, enc: true }, FDesc { id: "k", init: Some(true), lo: 0, hi: 3, kind: 0, enc: false }],
        macros: vec![("m", 0)],
    }
}
fn mk_lazy() -> EScope<Leaf> {
    EScope(Leaf::new(&lazy_leaf()))
}
type Dyn = Box<dyn Scope>;
struct Own(Dyn);
impl Scope for Own {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, s: &dyn Scope) -> ApplyResult {
        self.0.try_apply_func(id, a, init, s)
    }
    fn try_apply_macro(&self, id: &[u8], a: &[ABE], s: &dyn Scope) -> ApplyResult {
        self.0.try_apply_macro(id, a, s)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        self.0.try_encode(id, o, b)
    }
    fn describe(&self, cb: eval::Describer) {
        self.0.describe(cb)
    }
}
struct ByRef(Own);
impl Scope for ByRef {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, s: &dyn Scope) -> ApplyResult {
        <&Own as Scope>::try_apply_func(&&self.0, id, a, init, s)
    }
    fn try_apply_macro(&self, id: &[u8], a: &[ABE], s: &dyn Scope) -> ApplyResult {
        <&Own as Scope>::try_apply_macro(&&self.0, id, a, s)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        <&Own as Scope>::try_encode(&&self.0, id, o, b)
    }
    fn describe(&self, cb: eval::Describer) {
        <&Own as Scope>::describe(&&self.0, cb)
    }
}
struct ByDyn(Own);
impl Scope for ByDyn {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, s: &dyn Scope) -> ApplyResult {
        <&dyn Scope as Scope>::try_apply_func(&(&self.0 as &dyn Scope), id, a, init, s)
    }
    fn try_apply_macro(&self, id: &[u8], a: &[ABE], s: &dyn Scope) -> ApplyResult {
        <&dyn Scope as Scope>::try_apply_macro(&(&self.0 as &dyn Scope), id, a, s)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        <&dyn Scope as Scope>::try_encode(&(&self.0 as &dyn Scope), id, o, b)
    }
    fn describe(&self, cb: eval::Describer) {
        <&dyn Scope as Scope>::describe(&(&self.0 as &dyn Scope), cb)
    }
}
pub fn build(n: &Node) -> Dyn {
    let o = |n: &Node| Own(build(n));
    match n {
        Node::Leaf(d) => Box::new(EScope(Leaf::new(d))),
        Node::Unit => Box::new(()),
        Node::Pair(a, b) => Box::new((o(a), o(b))),
        Node::Triple(a, b, c) => Box::new((o(a), o(b), o(c))),
        Node::OptSome(a) => Box::new(Some(o(a))),
        Node::OptNone => Box::new(None::<Own>),
        Node::Ok(a) => Box::new(anyhow::Ok(o(a))),
        Node::Failed => Box::new(Err::<Own, _>(anyhow::anyhow!("failed to load"))),
        Node::Rc(a) => Box::new(Rc::new(o(a))),
        Node::Arc(a) => Box::new(Arc::new(o(a))),
        Node::Ref(a) => Box::new(ByRef(o(a))),
        Node::DynRef(a) => Box::new(ByDyn(o(a))),
        Node::Lazy => Box::new(std::cell::LazyCell::new(mk_lazy as fn() -> EScope<Leaf>)),
        Node::Basic => Box::new(abe::scope::basic_scope()),
    }
}
/// the scopes in lookup order
pub enum Flat<'o> {
    Leaf(std::borrow::Cow<'o, LeafDesc>),
    Failed,
    Basic,
    Unit,
    Unset,
}
pub fn flat<'o>(n: &'o Node, out: &mut Vec<Flat<'o>>) {
    use std::borrow::Cow;
    match n {
        Node::Leaf(d) => out.push(Flat::Leaf(Cow::Borrowed(d))),
        Node::Lazy => out.push(Flat::Leaf(Cow::Owned(lazy_leaf()))),
        Node::Unit => out.push(Flat::Unit),
        Node::OptNone => out.push(Flat::Unset),
        Node::Failed => out.push(Flat::Failed),
        Node::Basic => out.push(Flat::Basic),
        Node::Pair(a, b) => {
            flat(a, out);
            flat(b, out)
        }
        Node::Triple(a, b, c) => {
            flat(a, out);
            flat(b, out);
            flat(c, out)
        }
        Node::OptSome(a) | Node::Ok(a) | Node::Rc(a) | Node::Arc(a) | Node::Ref(a) | Node::DynRef(a) => flat(a, out),
    }
}
pub struct FlatScope<'o>(pub Vec<Flat<'o>>);
fn rkind<V>(k: u8, v: V) -> R<V> {
    match k {
        0 => R::Val(v),
        1 => R::None,
        _ => R::Err,
    }
}
impl<'o> FlatScope<'o> {
    fn first<V>(&self, leaf: impl Fn(&LeafDesc) -> R<V>, basic: impl Fn() -> R<V>) -> R<V> {
        for f in &self.0 {
            let r = match f {
                Flat::Leaf(d) => leaf(d),
                Flat::Failed => R::Err,
                Flat::Basic => basic(),
                _ => R::None,
            };
            if !matches!(r, R::None) {
                return r;
            }
        }
        R::None
    }
}
impl<'o> RScope for FlatScope<'o> {
    fn func(&self, id: &[u8], a: &[&[u8]], init: bool, top: &dyn RScope) -> R {
        self.first(
            |d| {
                let Some((i, f)) = d.funcs.iter().enumerate().find(|(_, f)| f.id.as_bytes() == id) else {
                    return R::None;
                };
                if f.init.map_or(false, |i| i != init) || a.len() < f.lo || a.len() > f.hi {
                    return R::Err;
                }
                rkind(f.kind, ser(&lname(d, i), a, init))
            },
            || Basic.func(id, a, init, top),
        )
    }
    fn mac(&self, id: &[u8], l: &[A], top: &dyn RScope) -> R {
        self.first(
            |d| match d.macros.iter().enumerate().find(|(_, m)| m.0.as_bytes() == id) {
                None => R::None,
                Some((i, m)) => rkind(m.1, ser_abe(&lname(d, i), l)),
            },
            || Basic.mac(id, l, top),
        )
    }
    fn enc(&self, id: &[u8], opts: &[A], b: &[u8]) -> R<String> {
        self.first(
            |d| match d.funcs.iter().enumerate().find(|(_, f)| f.enc && f.id.as_bytes() == id) {
                None => R::None,
                Some((i, f)) => rkind(f.kind, format!("{}{b:?}{:?}", lname(d, i), to_reals(opts))),
            },
            || Basic.enc(id, opts, b),
        )
    }
}
const NAMES: &[&str] = &["f", "g", "k", "u8", ""];
pub fn leaf_desc() -> BoxedStrategy<LeafDesc> {
    let func = (prop::sample::select(NAMES.to_vec()), prop_oneof![3 => Just(None), 1 => Just(Some(true)), 1 => Just(Some(false))], 0usize..3, 0usize..3, prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)], any::<bool>())
        .prop_map(|(id, init, lo, d, kind, enc)| FDesc { id, init, lo, hi: lo + d, kind, enc });
    let mac = (prop::sample::select(vec!["m", "or", "w"]), prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)]);
    (0u8..50, vec(func, 0..=4), vec(mac, 0..=2)).prop_map(|(n, funcs, macros)| LeafDesc { n, funcs, macros }).boxed()
}
pub fn node() -> BoxedStrategy<Node> {
    let leaf = prop_oneof![8 => leaf_desc().prop_map(Node::Leaf), 1 => Just(Node::Unit), 1 => Just(Node::OptNone), 1 => Just(Node::Failed), 1 => Just(Node::Lazy), 1 => Just(Node::Basic)];
    leaf.prop_recursive(4, 12, 3, |i| {
        let b = i.clone().prop_map(Box::new);
        prop_oneof![
            4 => (b.clone(), b.clone()).prop_map(|(a, b)| Node::Pair(a, b)),
            4 => (b.clone(), b.clone(), b.clone()).prop_map(|(a, b, c)| Node::Triple(a, b, c)),
            1 => b.clone().prop_map(Node::OptSome),
            1 => b.clone().prop_map(Node::Ok),
            1 => b.clone().prop_map(Node::Rc),
            1 => b.clone().prop_map(Node::Arc),
            1 => b.clone().prop_map(Node::Ref),
            1 => b.clone().prop_map(Node::DynRef),
        ]
    })
    .boxed()
}
fn to_r(r: ApplyResult) -> R {
    match r {
        ApplyResult::NoValue => R::None,
        ApplyResult::Value(v) => R::Val(v),
        ApplyResult::Err(_) => R::Err,
    }
}
fn scopes((n, id, args, init): &(Node, &'static str, Vec<Vec<u8>>, bool), o: &mut Obs) -> Res {
    let real = build(n);
    let mut f = vec![];
    flat(n, &mut f);
    let rf = FlatScope(f);
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_slice()).collect();
    let want = rf.func(id.as_bytes(), &a, *init, &rf);
    let got = to_r(real.try_apply_func(id.as_bytes(), &a, *init, &*real));
    ensure_eq!(got, want, "function {id:?} with {} arguments, init {init}", a.len());
    let l: Vec<A> = args.iter().map(|a| A::B(a.clone())).collect();
    let wm = rf.mac(b"m", &l, &rf);
    ensure_eq!(to_r(real.try_apply_macro(b"m", &to_reals(&l), &*real)), wm, "macro m");
    let wm2 = rf.mac(b"w", &l, &rf);
    ensure_eq!(to_r(real.try_apply_macro(b"w", &to_reals(&l), &*real)), wm2, "macro w");
    let opts: Vec<A> = l.iter().take(1).cloned().collect();
    let we = rf.enc(id.as_bytes(), &opts, b"\x07");
    let ge = match real.try_encode(id.as_bytes(), &to_reals(&opts), b"\x07") {
        ApplyResult::NoValue => R::None,
        ApplyResult::Value(v) => R::Val(v),
        ApplyResult::Err(_) => R::Err,
    };
    ensure_eq!(ge, we, "encoder {id:?}");
    // the same through an expression
    let mut e = vec![];
    let mut rest = &args[..];
    if !*init {
        e.push(COLON);
        if let Some(a) = args.first() {
            e.push(A::B(a.clone()));
            rest = &args[1..];
        }
        e.push(SLASH);
    }
    e.push(A::B(id.as_bytes().to_vec()));
    for a in rest {
        e.push(COLON);
        e.push(A::B(a.clone()));
    }
    let e = normal(&e);
    let expr = vec![A::L(e), A::L(vec![SLASH, A::B(b"m".to_vec()), COLON, A::B(b"x".to_vec())])];
    let want2 = eval(&rf, &expr);
    let got2 = eval::eval(&*real, &to_reals(&expr)).map(|l| comps_real(&l)).map_err(|e| err_class(&e));
    ensure_eq!(got2, want2, "value of {}", print(&expr));
    let defs = rf.0.iter().filter(|f| match f {
        Flat::Leaf(d) => d.funcs.iter().any(|f| f.id == *id),
        Flat::Basic => *id == "u8",
        _ => false,
    });
    let defs = defs.count();
    o.nontrivial(defs >= 2 || matches!(want, R::Err));
    o.class_if(defs >= 2, "shadowed name");
    o.class(match want {
        R::None => "undefined",
        R::Val(_) => "value",
        R::Err => "error",
    });
    o.class_if(rf.0.iter().any(|f| matches!(f, Flat::Failed)), "failed scope present");
    Ok(())
}

// ------------------------------------------------------------------ A06 - A09: one function at a time
pub fn one_call((f, args): &(&'static str, Vec<Vec<u8>>), o: &mut Obs) -> Res {
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_slice()).collect();
    take_too_big();
    let want = Basic.func(f.as_bytes(), &a, false, &Basic);
    if take_too_big() {
        o.class("skipped: requested length above 1 MiB");
        return Ok(());
    }
    for init in [true, false] {
        let got = to_r(BASIC_SCOPE.try_apply_func(f.as_bytes(), &a, init, &BASIC_SCOPE));
        ensure_eq!(got, want, "[{f}] on {args:?} (init {init})");
    }
    // through text: as opening call and as continuation
    if a.len() <= 15 && !a.is_empty() {
        let tail: String = a[1..].iter().map(|x| format!(":{}", esc(x))).collect();
        for text in [format!("[:{}/{}{tail}]", esc(a[0]), esc(f.as_bytes())), format!("[{}:{}{tail}]", esc(f.as_bytes()), esc(a[0]))] {
            let abe = abe::parse_abe_strict_b(text.as_bytes()).map_err(|e| format!("{text}: {e}"))?;
            let got = match eval::eval(&BASIC_SCOPE, &abe) {
                Ok(v) => R::Val(v.into_exact_bytes().map_err(|l| format!("{text} is a list {l}"))?),
                Err(EvalError::Func(..)) => R::Err,
                Err(e) => return Err(Fail::from(format!("{text}: {e}"))),
            };
            ensure_eq!(got, want, "value of {text}");
        }
    }
    o.class(f);
    o.class_if(matches!(want, R::Err), "refused");
    o.nontrivial(matches!(want, R::Val(_)) || a.len() > 1);
    Ok(())
}
fn calls_to(names: &'static [&'static str]) -> BoxedStrategy<(&'static str, Vec<Vec<u8>>)> {
    let fs: Vec<&'static (&'static str, usize, usize)> = FUNCS.iter().filter(|f| names.contains(&f.0)).collect();
    assert_eq!(fs.len(), names.len());
    (0..fs.len()).prop_flat_map(move |i| call_of(fs[i])).boxed()
}
const BYTE_FNS: &[&str] = &["?a", "?a0", "a", "f", "lpad", "rpad", "~lpad", "~rpad", "lcut", "rcut", "~lcut", "~rcut", "lfixed", "rfixed", "replace", "slice", "~utf8"];
const INT_FNS: &[&str] = &["+", "-", "u8", "u16", "u32", "u64", "u128", "?u", "lu", "lu8", "lu16", "lu32", "lu64", "lu128", "?lu"];
const BASE_FNS: &[&str] = &["b2", "b8", "b16", "?b", "2mini", "b", "?bs", "bs"];
const LOGIC_FNS: &[&str] = &["C", "size?", "val?", "eval"];

fn slices((b, args): &(Vec<u8>, Vec<Vec<u8>>), o: &mut Obs) -> Res {
    one_call(&("slice", [vec![b.clone()], args.clone()].concat()), o)
}
/// all slices of short sequences with small bounds, against a direct statement of python's rules
fn slice_table() -> Vec<(usize, Vec<Vec<u8>>)> {
    let opt: Vec<String> = std::iter::once(String::new()).chain((-6..=6).map(|i| i.to_string())).chain(["-0".to_string()]).collect();
    let mut v = vec![];
    for n in 0..5usize {
        for s in &opt {
            for e in &opt {
                for st in ["1", "2", "3", "-1", "-2", "-3", "0", "7", "-7"] {
                    v.push((n, vec![s.clone().into_bytes(), e.clone().into_bytes(), st.as_bytes().to_vec()]));
                }
                v.push((n, vec![s.clone().into_bytes(), e.clone().into_bytes()]));
            }
            v.push((n, vec![s.clone().into_bytes()]));
        }
    }
    v
}
fn slice_case((n, args): &(usize, Vec<Vec<u8>>), o: &mut Obs) -> Res {
    let b: Vec<u8> = (0..*n as u8).map(|i| b'a' + i).collect();
    slices(&(b, args.clone()), o)
}
fn sums(ops: &Vec<Vec<u8>>, o: &mut Obs) -> Res {
    one_call(&("+", ops.clone()), o)?;
    one_call(&("-", ops.clone()), o)?;
    let n = ops[0].len();
    if n <= 15 {
        // exact integers
        let sum: u128 = ops.iter().map(|v| un_be(v)).sum();
        let a: Vec<&[u8]> = ops.iter().map(|v| v.as_slice()).collect();
        let want = if sum > maxof(n) { vec![255; n] } else { be(sum, n) };
        ensure_eq!(to_r(BASIC_SCOPE.try_apply_func(b"+", &a, true, &BASIC_SCOPE)), R::Val(want), "sum of {ops:?}");
        let rest: u128 = ops[1..].iter().map(|v| un_be(v)).sum();
        let want = be(un_be(&ops[0]).saturating_sub(rest), n);
        ensure_eq!(to_r(BASIC_SCOPE.try_apply_func(b"-", &a, true, &BASIC_SCOPE)), R::Val(want), "difference of {ops:?}");
        o.class_if(sum > maxof(n), "saturated sum");
        o.class_if(un_be(&ops[0]) < rest, "saturated difference");
    }
    o.nontrivial(ops.len() > 1 && n > 0);
    Ok(())
}
fn int_round((v, w): &(u128, usize), o: &mut Obs) -> Res {
    let n = 1usize << w;
    let v = *v & maxof(n);
    let ev = |t: String| -> Result<Vec<u8>, Fail> {
        let abe = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| e.to_string())?;
        Ok(eval::eval(&BASIC_SCOPE, &abe).map_err(|e| format!("{t}: {e}"))?.concat())
    };
    let bits = 8 * n;
    ensure_eq!(ev(format!("[u{bits}:{v}]"))?, be(v, n), "u{bits} of {v}");
    ensure_eq!(ev(format!("[lu{bits}:{v}]"))?, le(v, n), "lu{bits} of {v}");
    ensure_eq!(ev(format!("[u{bits}:{v}/?u]"))?, v.to_string().into_bytes(), "u{bits}/?u of {v}");
    ensure_eq!(ev(format!("[lu{bits}:{v}/?lu]"))?, v.to_string().into_bytes(), "lu{bits}/?lu of {v}");
    ensure_eq!(ev(format!("[lu:{v}/?lu]"))?, v.to_string().into_bytes(), "lu/?lu of {v}");
    if n < 16 && v == maxof(n) {
        for f in [format!("[u{bits}:{}]", v + 1), format!("[lu{bits}:{}]", v + 1)] {
            ensure!(ev(f.clone()).is_err(), "{f} accepted");
        }
    }
    o.nontrivial(v > 255);
    Ok(())
}
fn any_width_print(b: &Vec<u8>, o: &mut Obs) -> Res {
    one_call(&("?u", vec![b.clone()]), o)?;
    one_call(&("?lu", vec![b.clone()]), o)
}
fn base_round(b: &Vec<u8>, o: &mut Obs) -> Res {
    let f = |n: &str, x: &[u8]| to_r(BASIC_SCOPE.try_apply_func(n.as_bytes(), &[x], true, &BASIC_SCOPE));
    for (p, d) in [("?b", "b"), ("?bs", "bs")] {
        let R::Val(t) = f(p, b) else { return Err(format!("{p} fails on {b:?}").into()) };
        ensure_eq!(f(d, &t), R::Val(b.clone()), "{d} of {p}({b:?})");
        // every single character change is either refused or means other bytes
        if let Some(i) = (!t.is_empty()).then(|| b.iter().map(|x| *x as usize).sum::<usize>() % t.len()) {
            for c in [b'A', b'z', b'/', b'-', b'=', b'+', b'_', b' '] {
                if t[i] != c {
                    let mut t2 = t.clone();
                    t2[i] = c;
                    ensure!(f(d, &t2) != R::Val(b.clone()), "{d} gives the same bytes for {} and {}", String::from_utf8_lossy(&t), String::from_utf8_lossy(&t2));
                }
            }
        }
    }
    one_call(&("?b", vec![b.clone()]), o)?;
    one_call(&("?bs", vec![b.clone()]), o)?;
    one_call(&("2mini", vec![b.clone()]), o)?;
    ensure_eq!(abe::scope::base::base64(b), b64url(b), "base64()");
    ensure_eq!(abe::scope::base::mini_b64(b), mini(b), "mini_b64()");
    ensure_eq!(abe::scope::base::base64_decode(b64url(b)).ok(), Some(b.clone()), "base64_decode()");
    o.nontrivial(b.len() % 3 != 0);
    Ok(())
}
fn radix_round((v, lead, r): &(u128, usize, usize), o: &mut Obs) -> Res {
    let r = [2u32, 8, 16][*r];
    let mut d = match r {
        2 => format!("{v:b}"),
        8 => format!("{v:o}"),
        _ => if lead % 2 == 0 { format!("{v:x}") } else { format!("{v:X}") },
    };
    d = "0".repeat(*lead) + &d;
    let want = if *v == 0 { vec![0] } else { cut0(&be(*v, 16)).to_vec() };
    let got = to_r(BASIC_SCOPE.try_apply_func(format!("b{r}").as_bytes(), &[d.as_bytes()], true, &BASIC_SCOPE));
    ensure_eq!(got, R::Val(want), "b{r} of {d}");
    o.nontrivial(*v > 255);
    Ok(())
}
// ------------------------------------------------------------------ A09
fn or_prog() -> BoxedStrategy<Vec<A>> {
    let good = prop_oneof![
        bytes(5).prop_map(|b| vec![A::B(b)]),
        bytes(5).prop_map(|b| vec![A::L(vec![A::B(b"q".to_vec()), COLON, A::B(b)])]),
        (bytes(3), bytes(3)).prop_map(|(a, b)| vec![A::B(a), SLASH, A::B(b)]),
        Just(vec![]),
    ];
    let bad = prop_oneof![
        Just(vec![A::L(vec![A::B(b"nope".to_vec())])]),
        Just(vec![A::L(vec![A::B(b"u8".to_vec()), COLON, A::B(b"999".to_vec())])]),
        Just(vec![A::B(b"x".to_vec()), A::L(vec![SLASH, A::B(b"nope".to_vec())])]),
        bytes(4).prop_map(|b| vec![A::L(vec![COLON, A::B(b), SLASH, A::B(b"val?".to_vec()), COLON, A::B(b"=".to_vec()), COLON, A::B(b"zzzzzzz".to_vec())])]),
    ];
    let alt = prop_oneof![1 => good.boxed(), 2 => bad.boxed()];
    vec(alt, 0..5)
        .prop_map(|alts| {
            let mut l = vec![SLASH, A::B(b"or".to_vec())];
            for a in alts {
                l.push(COLON);
                l.extend(a)
            }
            vec![A::L(l)]
        })
        .boxed()
}
fn tests_fn((b, other, n, nested): &(Vec<u8>, Vec<u8>, i64, Vec<A>), o: &mut Obs) -> Res {
    let len = (b.len() as i64 + n).max(0);
    let ev = |l: &[A]| eval::eval(&both(), &to_reals(l)).map(|l| l.concat()).ok();
    let call = |f: &str, args: Vec<Vec<u8>>| {
        let mut l = vec![COLON, A::B(b.clone()), SLASH, A::B(f.into())];
        for a in args {
            l.push(COLON);
            l.push(A::B(a))
        }
        ev(&[A::L(l)])
    };
    ensure_eq!(call("size?", vec![b"=".to_vec(), len.to_string().into_bytes()]), (len == b.len() as i64).then(|| b.clone()), "size? {len} of {b:?}");
    ensure_eq!(call("val?", vec![b"=".to_vec(), other.clone()]), (b == other).then(|| b.clone()), "val? {other:?} of {b:?}");
    ensure_eq!(call("val?", vec![b"=".to_vec(), b.clone()]), Some(b.clone()), "val? itself");
    for f in ["size?", "val?"] {
        ensure_eq!(call(f, vec![other.clone(), b.clone()]).is_some(), other == b"=" && f == "val?" || (other == b"=" && num(b, u64::MAX as u128) == Some(b.len() as u128)), "{f} with operator {other:?}");
    }
    ensure_eq!(call("C", vec![other.clone(); (*n).unsigned_abs() as usize % 5]), Some(vec![]), "comment");
    // eval of the text and /e of the tree are the value of the expression
    take_too_big();
    let direct = eval(&Both, nested).map(|v| join(&v)).ok();
    if take_too_big() || mentions_help(nested) {
        return Ok(());
    }
    let e = vec![A::L([vec![SLASH, A::B(b"e".to_vec()), COLON], nested.clone()].concat())];
    ensure_eq!(ev(&e), direct.clone(), "value of {}", print(&e));
    let t = vec![A::L(vec![COLON, A::B(print(nested).into_bytes()), SLASH, A::B(b"eval".to_vec())])];
    let direct_n = eval(&Both, &normal(nested)).map(|v| join(&v)).ok();
    ensure_eq!(ev(&t), direct_n, "value of {}", print(&t));
    o.nontrivial(direct.is_some() && nested.len() > 1);
    o.class_if(len == b.len() as i64, "size holds");
    o.class_if(b == other, "value equal");
    Ok(())
}

// ------------------------------------------------------------------ A14
fn argv((vals, id, args, init): &(Vec<Vec<u8>>, Vec<u8>, Vec<Vec<u8>>, bool), o: &mut Obs) -> Res {
    use abe::scope::argv::{ArgList, ArgV};
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_slice()).collect();
    let refs: Vec<&[u8]> = vals.iter().map(|a| a.as_slice()).collect();
    // fixed form
    match ArgV::try_fit(&refs) {
        None => ensure!(vals.len() > 8, "{} values do not fit", vals.len()),
        Some(v) => {
            ensure!(vals.len() <= 8, "{} values fit", vals.len());
            let want: R = match &id[..] {
                [d @ b'0'..=b'7'] => {
                    if !a.is_empty() || !init {
                        R::Err
                    } else {
                        vals.get((d - b'0') as usize).cloned().into()
                    }
                }
                _ => R::None,
            };
            let s = EScope(v);
            ensure_eq!(to_r(s.try_apply_func(id, &a, *init, &s)), want, "ArgV {id:?}");
            ensure_eq!(to_r(s.try_apply_macro(id, &[], &s)), R::None, "ArgV macro");
        }
    }
    // list form
    let s: ArgList<&[Vec<u8>], Vec<u8>> = ArgList::new(&vals[..]);
    let want: R = if id == b"argv" {
        ref_slice_idx(vals.len(), &a).map(|ix| ix.into_iter().flat_map(|i| vals[i].clone()).collect()).into()
    } else {
        match num(id, u64::MAX as u128) {
            None => R::None,
            Some(_) if !a.is_empty() || !init => R::Err,
            Some(i) => vals.get(i.min(1 << 40) as usize).cloned().into(),
        }
    };
    ensure_eq!(to_r(s.try_apply_func(id, &a, *init, &s)), want.clone(), "ArgList {}", String::from_utf8_lossy(id));
    // resolves through an expression next to the basic scope
    if *init {
        let mut e = vec![A::B(id.clone())];
        for x in &a {
            e.push(COLON);
            e.push(A::B(x.to_vec()))
        }
        let got = eval::eval(&(s, abe::scope::basic_scope()), &[to_real(&A::L(e))]);
        match &want {
            R::Val(v) => ensure_eq!(got.map(|g| g.concat()).ok(), Some(v.clone()), "expression over arguments"),
            _ => {}
        }
    }
    o.nontrivial(matches!(want, R::Val(_)) || (matches!(want, R::Err) && !vals.is_empty()));
    o.class(match want {
        R::Val(_) => "value",
        R::None => "other name",
        R::Err => "refused",
    });
    o.class_if(id == b"argv", "slice form");
    Ok(())
}

// ------------------------------------------------------------------ A15
fn no_crash((text, opts, n): &(Vec<u8>, Vec<u8>, usize), o: &mut Obs) -> Res {
    let scope = both();
    let mut done = 0;
    for lenient in [false, true] {
        if let Ok(l) = abe::parse_abe_b(text, lenient) {
            let r = from_reals(&l);
            take_too_big();
            let _ = eval(&Both, &r);
            if take_too_big() {
                o.class("skipped: requested length above 1 MiB");
                continue;
            }
            match eval::eval(&scope, &l) {
                Ok(v) => {
                    let _ = format!("{v} {v:?}");
                    let _ = v.iter_bytes().count();
                    let b = v.concat();
                    for ign in [false, true] {
                        if let Ok(o) = std::str::from_utf8(opts) {
                            let _ = eval::encode(&scope, &b, o, ign).map_err(|e| format!("{e} {e:?}"));
                        }
                    }
                }
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                }
            }
            let _ = abe::print_abe(&l);
            done += 1;
        }
    }
    for (p, e) in [(0, 0), (1, 4), (2, 1), (7, 0)] {
        let _ = abe::ast::tokenize_abe_b(text, p, e).take(text.len() + 2).filter(|r| r.is_ok()).count();
    }
    let _ = abe::abtxt::parse_abtxt_upto_max(text, *n).map_err(|e| e.to_string());
    let _ = abe::abtxt::parse_abtxt_into(text, &mut vec![0; *n]).map_err(|e| e.to_string());
    if let Ok(c) = abe::abconf::ABConf::try_from(text) {
        let _ = format!("{c} {c:?}");
        let parts: Vec<&[u8]> = opts.split(|b| *b == b'/').take(*n % 4).collect();
        let _ = c.has_optional_value(&parts);
        let _ = c.get_checked(&parts).count();
        let _ = c.get(opts).is_some();
    }
    if let Ok(o) = std::str::from_utf8(opts) {
        for ign in [false, true] {
            let _ = eval::encode(&scope, text, o, ign).map_err(|e| format!("{e}"));
        }
    }
    for (f, _, _) in FUNCS {
        let _ = f;
    }
    o.nontrivial(done > 0);
    o.class_if(done > 0, "parsed");
    o.class_if(done == 0, "not an expression");
    Ok(())
}
fn no_crash_call((f, args, init): &(&'static str, Vec<Vec<u8>>, bool), o: &mut Obs) -> Res {
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_slice()).collect();
    take_too_big();
    let _ = Basic.func(f.as_bytes(), &a, *init, &Basic);
    if take_too_big() {
        return Ok(());
    }
    let _ = BASIC_SCOPE.try_apply_func(f.as_bytes(), &a, *init, &BASIC_SCOPE);
    o.nontrivial(true);
    o.class(f);
    Ok(())
}

pub fn props() -> Vec<Property> {
    let bound = "requested lengths above 1 MiB are out of scope (they only allocate)";
    vec![
        Property {
            id: "A04",
            rule: "a program counts when it has at least two calls and is not refused for its shape alone",
            assumptions: &["the reference evaluator in refabe.rs states the documented pipeline rules", "requested lengths above 1 MiB are out of scope (they only allocate)", "the help function is decided by A17"],
            subs: vec![
                sub("programs", 60_000, 3_000_000, || program(3), programs),
                sub("deep", 20_000, 1_000_000, || program(5), programs),
                sub("pipelines", 100_000, 4_000_000, arity_pipeline, programs),
                sub("trees", 40_000, 2_000_000, tree, programs),
            ],
        },
        Property {
            id: "A05",
            rule: "a case counts when the name is defined by two or more scopes or the lookup must be an error",
            assumptions: &["a function that returns 'no value' counts as not defining its name"],
            subs: vec![sub("scopes", 100_000, 5_000_000, || (node(), prop::sample::select(NAMES.to_vec()), vec(prop_oneof![Just(b"1".to_vec()), short_bytes()], 0..4), any::<bool>()), scopes)],
        },
        Property {
            id: "A06",
            rule: "a call counts when it yields a value or has arguments beyond the input",
            assumptions: &["requested lengths above 1 MiB are out of scope (they only allocate)"],
            subs: vec![
                fixed("slice-table", slice_table(), slice_case),
                sub("calls", 300_000, 8_000_000, || calls_to(BYTE_FNS), one_call),
                sub("slices", 100_000, 4_000_000, || (bytes(20), vec(idx_text(), 0..=3)), slices),
                sub("replace", 100_000, 4_000_000, || (vec(prop::sample::select(b"ab".to_vec()), 0..16), vec(prop::sample::select(b"ab".to_vec()), 0..4), vec(prop::sample::select(b"abc".to_vec()), 0..4)).prop_map(|(a, b, c)| ("replace", vec![a, b, c])), one_call),
            ],
        },
        Property {
            id: "A07",
            rule: "a call counts when it yields a value or has several operands; a round trip when the value exceeds one byte",
            assumptions: &["decimal text may carry a leading '+' (as Rust's integer parser accepts)"],
            subs: vec![
                sub("calls", 300_000, 8_000_000, || calls_to(INT_FNS), one_call),
                sub("sums", 100_000, 5_000_000, addends, sums),
                sub("roundtrip", 60_000, 3_000_000, || (prop_oneof![any::<u128>(), any::<u64>().prop_map(|v| v as u128), Just(u128::MAX), (0u32..128).prop_map(|s| 1u128 << s), (0u32..128).prop_map(|s| (1u128 << s) - 1)], 0usize..5), int_round),
                sub("print", 60_000, 2_000_000, || bytes(18), any_width_print),
            ],
        },
        Property {
            id: "A08",
            rule: "a call counts when it yields a value; a round trip when the length is not a multiple of 3 or the number exceeds one byte",
            assumptions: &[],
            subs: vec![
                sub("calls", 300_000, 8_000_000, || calls_to(BASE_FNS), one_call),
                sub("base64", 60_000, 3_000_000, || bytes(70), base_round),
                sub("radix", 60_000, 3_000_000, || (prop_oneof![any::<u128>(), (0u32..128).prop_map(|s| 1u128 << s), Just(0), Just(u128::MAX), any::<u16>().prop_map(|v| v as u128)], 0usize..4, 0usize..3), radix_round),
            ],
        },
        Property {
            id: "A09",
            rule: "a case counts when a fallback has several alternatives or the nested expression has a value and several elements",
            assumptions: &["requested lengths above 1 MiB are out of scope (they only allocate)"],
            subs: vec![
                sub("or", 100_000, 4_000_000, || prop_oneof![3 => or_prog(), 1 => (or_prog(), or_prog()).prop_map(|(a, b)| { let mut a = a; if let A::L(l) = &mut a[0] { l.push(COLON); l.extend(b) } a })], programs),
                sub("tests", 60_000, 3_000_000, || (prop_oneof![bytes(20), (0usize..9).prop_map(|n| n.to_string().into_bytes())], prop_oneof![2 => short_bytes(), 2 => bytes(20), 2 => Just(b"=".to_vec())], -2i64..3, program(2)), tests_fn),
                sub("tests-equal", 20_000, 500_000, || (bytes(20), program(2)).prop_map(|(b, p)| (b.clone(), b, 0i64, p)), tests_fn),
                sub("calls", 60_000, 2_000_000, || calls_to(LOGIC_FNS), one_call),
            ],
        },
        Property {
            id: "A14",
            rule: "a case counts when it selects a value or is refused while values exist",
            assumptions: &[],
            subs: vec![sub("args", 200_000, 6_000_000, || {
                (prop_oneof![4 => vec(short_bytes(), 0..=8), 1 => vec(short_bytes(), 9..=12)],
                 prop_oneof![6 => (0u32..10).prop_map(|n| n.to_string().into_bytes()), 3 => Just(b"argv".to_vec()), 1 => prop::sample::select(vec!["+1", "01", "007", "-1", "x", "", "8", "99999999999999999999", "18446744073709551615", "argv0"]).prop_map(|s| s.as_bytes().to_vec())],
                 prop_oneof![2 => Just(vec![]), 3 => vec(idx_text(), 0..=3), 1 => vec(short_bytes(), 1..=2)],
                 prop::bool::weighted(0.8))
            }, argv)],
        },
        Property {
            id: "A15",
            rule: "a text counts when it parses (so that evaluation, encoding and printing run); a call always counts",
            assumptions: &["requested lengths above 1 MiB and nesting beyond the stack are out of scope", "non-termination means more than 60 s of CPU time or 3 GiB of heap growth in one case"],
            subs: vec![
                sub("texts", 200_000, 8_000_000, || (any_text(), prop_oneof![opts_text(), soup()], 0usize..50), no_crash),
                sub("calls", 400_000, 10_000_000, || (any_func().prop_flat_map(call_of), any::<bool>()).prop_map(|((f, a), i)| (f, a, i)), no_crash_call),
            ],
        },
    ]
    .into_iter()
    .map(|p| {
        let _ = bound;
        p
    })
    .collect()
}
