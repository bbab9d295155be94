//! Predicates: what a set of statements accepts, how it prints, and how it decides packets.
use crate::d1::{big, one, op, r_dec, r_inc, Num, RSet};
use crate::gen;
use crate::model::{self, Kind, M};
use fw::*;
use linkspace_core::eval::{ABList, CORE_SCOPE};
use linkspace_core::predicate::exprs::{ExtPredicate, ExtendedTestOp, Predicate, QScope, RuleType};
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_core::predicate::test_pkt::{compile_predicates, PktStreamTest};
use linkspace_core::predicate::*;
use linkspace_core::query::{KnownOptions, Query};
use linkspace_pkt::{abe::ast::Ctr, FieldEnum, NetPkt, U256};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// (name, width, implied type bits)
pub const FIELDS: [(&str, usize, u8); 22] = [
    ("type", 1, 1),
    ("netflags", 1, 1),
    ("hop", 4, 1),
    ("stamp", 8, 1),
    ("ubits0", 4, 1),
    ("ubits1", 4, 1),
    ("ubits2", 4, 1),
    ("ubits3", 4, 1),
    ("domain", 16, 2),
    ("group", 32, 2),
    ("pubkey", 32, 4),
    ("hash", 32, 1),
    ("size", 2, 1),
    ("data_size", 2, 1),
    ("links_len", 2, 2),
    ("depth", 1, 2),
    ("create", 8, 2),
    ("recv", 8, 0),
    ("i", 4, 0),
    ("i_new", 4, 0),
    ("i_db", 4, 0),
    ("i_branch", 4, 0),
];
pub const UNSUPPORTED: [FieldEnum; 11] = [
    FieldEnum::SignatureF,
    FieldEnum::DataF,
    FieldEnum::RSpaceNameF,
    FieldEnum::SpaceComp0F,
    FieldEnum::SpaceComp1F,
    FieldEnum::SpaceComp2F,
    FieldEnum::SpaceComp3F,
    FieldEnum::SpaceComp4F,
    FieldEnum::SpaceComp5F,
    FieldEnum::SpaceComp6F,
    FieldEnum::SpaceComp7F,
];
pub fn fidx(n: &str) -> usize {
    FIELDS.iter().position(|f| f.0 == n).unwrap()
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    T(TestOp),
    Ge,
    Le,
    Head,
    Tail,
}
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Ge => ">=",
            Op::Le => "<=",
            Op::Head => "=*",
            Op::Tail => "*=",
            Op::T(TestOp::Nop) => "?",
            Op::T(TestOp::Equal) => "=",
            Op::T(TestOp::Less) => "<",
            Op::T(TestOp::Greater) => ">",
            Op::T(TestOp::Mask0) => "0",
            Op::T(TestOp::Mask1) => "1",
        }
    }
    pub fn real(self) -> ExtendedTestOp {
        match self {
            Op::Ge => ExtendedTestOp::GreaterEq,
            Op::Le => ExtendedTestOp::LessEq,
            Op::Head => ExtendedTestOp::HeadMask,
            Op::Tail => ExtendedTestOp::TailMask,
            Op::T(t) => ExtendedTestOp::Op(t),
        }
    }
}
#[derive(Clone, Debug)]
pub enum St {
    /// field, operator, operand
    Num(usize, Op, Vec<u8>),
    Prefix(Op, Vec<Vec<u8>>),
    Space(Op, Vec<Vec<u8>>),
    /// a field that takes no predicate
    No(usize, Op, Vec<u8>),
}
/// The model: a conjunction. `loose`: type bits whose implication is left open
#[derive(Clone, Debug)]
pub struct Mod {
    pub f: Vec<RSet>,
    pub pre: Vec<Vec<u8>>,
    pub loose: u8,
}
impl Default for Mod {
    fn default() -> Self {
        Mod { f: FIELDS.iter().map(|f| RSet { n: f.1, stmts: vec![] }).collect(), pre: vec![], loose: 0 }
    }
}
impl Mod {
    fn types(&mut self, bits: u8) {
        if bits != 0 {
            self.f[0].stmts.push((TestOp::Mask1, vec![bits]))
        }
    }
    /// add a statement; false when it is not a valid statement at all
    pub fn add(&mut self, s: &St) -> bool {
        match s {
            St::No(..) => false,
            St::Num(i, op, v) => {
                let (name, n, bits) = FIELDS[*i];
                let wide = match op {
                    // the operand of a mask part may be shorter
                    Op::Head | Op::Tail => v.len() <= n,
                    _ if name == "domain" => v.len() <= n,
                    _ => v.len() == n,
                };
                if !wide {
                    return false;
                }
                if name == "recv" && matches!(op, Op::Head | Op::Tail | Op::T(TestOp::Mask0 | TestOp::Mask1)) {
                    return false;
                }
                let pad = vec![0; n - v.len()];
                let all = vec![255; n - v.len()];
                let num: Vec<u8> = [&pad[..], v].concat();
                let add: Vec<(TestOp, Vec<u8>)> = match op {
                    Op::T(t) => vec![(*t, num)],
                    Op::Ge => r_dec(&num).map(|v| (TestOp::Greater, v)).into_iter().collect(),
                    Op::Le => r_inc(&num).map(|v| (TestOp::Less, v)).into_iter().collect(),
                    Op::Head => vec![(TestOp::Mask0, [&v[..], &all].concat()), (TestOp::Mask1, [&v[..], &pad].concat())],
                    Op::Tail => vec![(TestOp::Mask0, [&all[..], v].concat()), (TestOp::Mask1, [&pad[..], v].concat())],
                };
                if add.is_empty() {
                    self.loose |= bits;
                } else {
                    self.types(bits);
                }
                self.f[*i].stmts.extend(add);
                if name == "hash" && *op == Op::T(TestOp::Equal) {
                    self.f[fidx("i")].stmts.push((TestOp::Equal, vec![0; 4]))
                }
                true
            }
            St::Prefix(op, c) | St::Space(op, c) => {
                let c: &Vec<Vec<u8>> = &c.iter().filter(|c| !c.is_empty()).cloned().collect();
                if *op != Op::T(TestOp::Equal) || !model::valid_comps(c) {
                    return false;
                }
                let exact = matches!(s, St::Space(..));
                let d = fidx("depth");
                if exact {
                    self.types(2);
                    self.f[d].stmts.push((TestOp::Equal, vec![c.len() as u8]));
                    // an exact name inside a longer prefix leaves nothing
                    if !c.starts_with(&self.pre) {
                        self.f[d].stmts.push((TestOp::Less, vec![0]));
                        return true;
                    }
                }
                if self.pre.starts_with(c) {
                } else if c.starts_with(&self.pre) {
                    self.pre = c.clone();
                } else {
                    self.f[d].stmts.push((TestOp::Less, vec![0]));
                    return true;
                }
                if !self.pre.is_empty() {
                    self.f[d].stmts.push((TestOp::Greater, vec![self.pre.len() as u8 - 1]));
                }
                true
            }
        }
    }
    pub fn any(&self, f: &str) -> bool {
        let r = &self.f[fidx(f)];
        r.least(&vec![0; r.n]).is_some()
    }
    pub fn valid(&self) -> bool {
        FIELDS.iter().all(|f| f.0.starts_with('i') || self.any(f.0)) && self.any("i") && (self.any("i_new") || (self.any("i_db") && self.any("i_branch")))
    }
    /// What its printed form says: a hash narrowed down to one value by other means is printed as
    /// `hash:=:`, which asks for the first match only. None when that contradicts the other rules.
    pub fn printed(&self) -> Option<Mod> {
        let mut m = self.clone();
        if let Some((lo, hi)) = m.f[fidx("hash")].range() {
            if lo == hi {
                m.f[fidx("i")].stmts.push((TestOp::Equal, vec![0; 4]));
            }
        }
        // and a prefix comes with a depth rule, which names the linked packets
        if !m.pre.is_empty() {
            m.types(2)
        }
        m.valid().then_some(m)
    }
    pub fn accepts(&self, m: &M, hash: &[u8; 32]) -> bool {
        FIELDS.iter().enumerate().all(|(i, f)| {
            let r = &self.f[i];
            r.stmts.is_empty()
                || match field_of(m, hash, f.0) {
                    Some(v) => r.test(&v),
                    None => f.0.starts_with('i') || f.0 == "recv",
                }
        }) && (self.pre.is_empty() || (m.is_linked() && m.comps.starts_with(&self.pre)))
    }
}
/// the value a packet has for a field
pub fn field_of(m: &M, hash: &[u8; 32], f: &str) -> Option<Vec<u8>> {
    let l = m.is_linked();
    Some(match f {
        "type" => vec![match m.kind {
            Kind::Data => 1,
            Kind::Link => 3,
            Kind::Key(_) => 7,
            Kind::Error => 0x80,
        }],
        "netflags" => vec![m.h.flags],
        "hop" => m.h.hop.to_be_bytes().to_vec(),
        "stamp" => m.h.stamp.to_be_bytes().to_vec(),
        "ubits0" => m.h.ubits[0].to_be_bytes().to_vec(),
        "ubits1" => m.h.ubits[1].to_be_bytes().to_vec(),
        "ubits2" => m.h.ubits[2].to_be_bytes().to_vec(),
        "ubits3" => m.h.ubits[3].to_be_bytes().to_vec(),
        "hash" => hash.to_vec(),
        "size" => ((64 + (m.size_fields() + 7) / 8 * 8) as u16).to_be_bytes().to_vec(),
        "data_size" => (m.data.len() as u16).to_be_bytes().to_vec(),
        // the absent fields of a packet without them read as zero
        "domain" if l => m.domain.to_vec(),
        "domain" => vec![0; 16],
        "group" if l => m.group.to_vec(),
        "group" => vec![0; 32],
        "pubkey" => match m.kind {
            Kind::Key(k) => model::pubkey(k).to_vec(),
            _ => vec![0; 32],
        },
        "links_len" if l => (m.links.len() as u16).to_be_bytes().to_vec(),
        "links_len" => vec![0, 0],
        "depth" if l => vec![m.comps.len() as u8],
        "depth" => vec![0],
        "create" if l => m.stamp.to_be_bytes().to_vec(),
        "create" => vec![0; 8],
        _ => return None,
    })
}
// ------------------------------------------------------------------ the real thing
pub fn rule(i: usize) -> RuleType {
    FIELDS[i].0.parse().expect("field name")
}
fn test_u<U: Num>(s: &TestSet<U>, v: &[u8]) -> bool {
    s.test(U::of(v))
}
pub fn member(p: &PktPredicates, i: usize, v: &[u8]) -> bool {
    match FIELDS[i].0 {
        "type" => test_u(&p.pkt_types, v),
        "netflags" => test_u(&p.var_flags, v),
        "hop" => test_u(&p.var_hop, v),
        "stamp" => test_u(&p.var_stamp, v),
        "ubits0" => test_u(&p.var_ubits[0], v),
        "ubits1" => test_u(&p.var_ubits[1], v),
        "ubits2" => test_u(&p.var_ubits[2], v),
        "ubits3" => test_u(&p.var_ubits[3], v),
        "domain" => test_u(&p.domain, v),
        "group" => test_u::<U256>(&p.group, v),
        "pubkey" => test_u::<U256>(&p.pubkey, v),
        "hash" => test_u::<U256>(&p.hash, v),
        "size" => test_u(&p.size, v),
        "data_size" => test_u(&p.data_size, v),
        "links_len" => test_u(&p.links_len, v),
        "depth" => test_u(&p.depth, v),
        "create" => test_u(&p.create, v),
        "recv" => p.recv_stamp.test(u64::of(v)),
        "i" => test_u(&p.state.i_query, v),
        "i_new" => test_u(&p.state.i_new, v),
        "i_db" => test_u(&p.state.i_db, v),
        _ => test_u(&p.state.i_branch, v),
    }
}
pub fn abl_space(c: &[Vec<u8>]) -> ABList {
    let mut l = ABList::DEFAULT;
    for c in c {
        l.push_v((Some(Ctr::FSlash), c.clone()))
    }
    l
}
pub fn ext(s: &St) -> ExtPredicate {
    match s {
        St::Num(i, op, v) => ExtPredicate { kind: rule(*i), op: op.real(), val: v.clone().into() },
        St::Prefix(op, c) => ExtPredicate { kind: RuleType::SpacePrefix, op: op.real(), val: abl_space(c) },
        St::Space(op, c) => ExtPredicate { kind: RuleType::Field(FieldEnum::SpaceNameF), op: op.real(), val: abl_space(c) },
        St::No(i, op, v) => ExtPredicate { kind: RuleType::Field(UNSUPPORTED[i % UNSUPPORTED.len()]), op: op.real(), val: v.clone().into() },
    }
}
/// escapes every byte or prints a typed expression, by `style`
pub fn operand(v: &[u8], style: u8, name: &str) -> String {
    let raw = || v.iter().map(|b| format!("\\x{b:02x}")).collect::<String>();
    let num = |k: &str| {
        let mut b = [0; 16];
        b[16 - v.len()..].copy_from_slice(v);
        format!("[{k}:{}]", u128::from_be_bytes(b))
    };
    match (style % 4, v.len()) {
        (1, 1) => num("u8"),
        (1, 2) => num("u16"),
        (1, 4) => num("u32"),
        (1, 8) => num("u64"),
        (1, 32) => format!("[b:{}]", gen_b64(v)),
        (2, 32) if !name.ends_with('=') => gen_b64(v),
        (2, n) if n > 0 && v.iter().all(|c| c.is_ascii_alphanumeric()) => String::from_utf8(v.to_vec()).unwrap(),
        (3, 1) => format!("[b2:{:08b}]", v[0]),
        _ => raw(),
    }
}
fn gen_b64(v: &[u8]) -> String {
    use base64::prelude::*;
    BASE64_URL_SAFE_NO_PAD.encode(v)
}
pub fn text(s: &St, style: u8) -> String {
    let sp = |k: &str, op: &Op, c: &[Vec<u8>]| {
        let mut o = format!("{k}:{}:", op.text());
        if c.is_empty() && style % 2 == 1 {
            o.push('/')
        }
        for c in c {
            o.push('/');
            o += &c.iter().map(|b| if b.is_ascii_alphanumeric() && style % 2 == 0 { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect::<String>();
        }
        o
    };
    match s {
        St::Num(i, op, v) => {
            let n = FIELDS[*i].0;
            // text base64 stands for the bytes with the plain operators only
            let plain = matches!(op, Op::T(_));
            format!("{n}:{}:{}", op.text(), operand(v, style, if plain { n } else { "=" }))
        }
        St::Prefix(op, c) => sp("prefix", op, c),
        St::Space(op, c) => sp("spacename", op, c),
        St::No(i, op, v) => format!("{}:{}:{}", UNSUPPORTED[i % UNSUPPORTED.len()], op.text(), operand(v, 0, "")),
    }
}
// ------------------------------------------------------------------ generators
pub fn xop() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => op().prop_map(Op::T),
        2 => Just(Op::Ge),
        2 => Just(Op::Le),
        1 => Just(Op::Head),
        1 => Just(Op::Tail),
    ]
    .boxed()
}
pub fn comps() -> BoxedStrategy<Vec<Vec<u8>>> {
    // few names so prefixes meet
    prop_oneof![
        8 => vec(pick(&[&b"a"[..], b"b", b"ab", b"\0", b"/"]), 0..4),
        1 => vec(Just(b"a".to_vec()), 6..11),
        1 => vec(vec(any::<u8>(), 0..5), 0..10),
        1 => (190usize..210).prop_map(|n| vec![vec![b'x'; n]]),
    ]
    .boxed()
}
/// a statement; `base` gives the value the operand is drawn near to
pub fn st(base: Option<Vec<Option<Vec<u8>>>>) -> BoxedStrategy<St> {
    let num = (0..FIELDS.len() - 2).prop_map(|i| i).boxed();
    let num = prop_oneof![6 => num, 1 => FIELDS.len() - 5..FIELDS.len()];
    prop_oneof![
        12 => (num, xop(), any::<u16>()).prop_flat_map(move |(i, op, w)| {
            let (_, n, _) = FIELDS[i];
            let b = base.as_ref().and_then(|b| b[i].clone());
            let odd = w % 23 == 0;
            let width = match op {
                Op::Head | Op::Tail => (w as usize / 23) % (n + 1),
                _ if odd => (w as usize / 23) % (n + 2),
                _ if FIELDS[i].0 == "domain" && w % 3 == 0 => (w as usize / 23) % (n + 1),
                _ => n,
            };
            let fresh = big(width.max(1)).prop_map(move |v| v[..width].to_vec()).boxed();
            let v = match b {
                None => fresh,
                Some(b) => prop_oneof![
                    1 => fresh,
                    5 => near(b, op, width),
                ].boxed(),
            };
            v.prop_map(move |v| St::Num(i, op, v))
        }),
        2 => (prop_oneof![9 => Just(Op::T(TestOp::Equal)), 1 => xop()], comps()).prop_map(|(o, c)| St::Prefix(o, c)),
        1 => (prop_oneof![9 => Just(Op::T(TestOp::Equal)), 1 => xop()], comps()).prop_map(|(o, c)| St::Space(o, c)),
    ]
    .boxed()
}
/// an operand that most often accepts `b`, now and then just not
fn near(b: Vec<u8>, op: Op, width: usize) -> BoxedStrategy<Vec<u8>> {
    (0u8..8, big(b.len()))
        .prop_map(move |(k, r)| {
            let n = b.len();
            let up = r_inc(&b).unwrap_or(b.clone());
            let down = r_dec(&b).unwrap_or(b.clone());
            let v = match op {
                Op::T(TestOp::Less) => if k == 0 { b.clone() } else if k < 4 { up } else { r.max(up) },
                Op::T(TestOp::Greater) => if k == 0 { b.clone() } else if k < 4 { down } else { r.min(down) },
                Op::Le => if k == 0 { down } else if k < 4 { b.clone() } else { r.max(b.clone()) },
                Op::Ge => if k == 0 { up } else if k < 4 { b.clone() } else { r.min(b.clone()) },
                Op::T(TestOp::Mask0) => if k == 0 { r } else { r.iter().zip(&b).map(|(r, b)| r | b).collect() },
                Op::T(TestOp::Mask1) => if k == 0 { r } else { r.iter().zip(&b).map(|(r, b)| r & b).collect() },
                _ => if k == 0 { r } else { b.clone() },
            };
            match op {
                Op::Head => v[..width.min(n)].to_vec(),
                Op::Tail => v[n - width.min(n)..].to_vec(),
                _ => v[n - width.min(n)..].to_vec(),
            }
        })
        .boxed()
}
fn stmts(max: usize) -> BoxedStrategy<Vec<St>> {
    // half of the cases concentrate on two fields
    let few = (0..FIELDS.len(), 0..FIELDS.len(), vec((any::<bool>(), st(None)), 1..max)).prop_flat_map(|(a, b, v)| {
        v.into_iter()
            .map(|(k, s)| match s {
                St::Num(i, o, v) => {
                    let j = if k { a } else { b };
                    let n = FIELDS[j].1;
                    let odd = v.len() != FIELDS[i].1;
                    big(n.max(1)).prop_map(move |w| St::Num(j, o, if odd { v.clone() } else { w })).boxed()
                }
                s => Just(s).boxed(),
            })
            .collect::<Vec<_>>()
    });
    // a base value per field keeps most conjunctions satisfiable
    let based = FIELDS.iter().map(|f| big(f.1).prop_map(Some).boxed()).collect::<Vec<_>>().prop_flat_map(move |b| vec(st(Some(b)), 0..max));
    prop_oneof![2 => vec(st(None), 0..max), 2 => few, 4 => based].boxed()
}
fn probes(m: &Mod) -> Vec<Vec<Vec<u8>>> {
    FIELDS
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut p = vec![vec![0; f.1], vec![255; f.1], one(f.1)];
            if f.1 == 1 {
                p = (0..=255).map(|b| vec![b]).collect();
            }
            for (_, v) in &m.f[i].stmts {
                p.push(v.clone());
                p.extend(r_inc(v));
                p.extend(r_dec(v));
                p.push(v.iter().map(|b| !b).collect());
            }
            p
        })
        .collect()
}
/// same set of accepted values
fn agree(what: &str, p: &PktPredicates, m: &Mod) -> Res {
    for (i, vals) in probes(m).iter().enumerate() {
        for v in vals {
            if i == 0 && v[0] & m.loose != m.loose {
                continue;
            }
            // a printed type rule itself implies a data packet; every real packet with links or a key is one
            if i == 0 && !matches!(what, "api" | "text") && ![1, 3, 7, 0x80].contains(&v[0]) {
                continue;
            }
            ensure_eq!(member(p, i, v), m.f[i].test(v), "{what}: {} accepts {v:02x?}", FIELDS[i].0);
        }
    }
    let c: Vec<Vec<u8>> = p.rspace_prefix.iter().map(|c| c.to_vec()).collect();
    ensure_eq!(c, m.pre, "{what}: prefix");
    Ok(())
}
fn fold(s: &[St]) -> (Mod, bool) {
    let mut m = Mod::default();
    for s in s {
        if !m.add(s) {
            return (m, false);
        }
    }
    let v = m.valid();
    (m, v)
}
fn conj((sts, styles, perm): &(Vec<St>, Vec<u8>, Vec<u16>), o: &mut Obs) -> Res {
    // statement by statement
    let mut m = Mod::default();
    let mut p = PktPredicates::DEFAULT;
    let mut q = Query::DEFAULT;
    let mut n = 0;
    for (k, s) in sts.iter().enumerate() {
        let style = styles[k % styles.len()];
        let stated = m.add(s);
        let want = stated && m.valid();
        let got = p.add_ext_predicate(ext(s)).is_ok();
        let t = text(s, style);
        let tgot = q.parse(t.as_bytes(), &CORE_SCOPE);
        ensure_eq!(got, want, "adding {s:?} after {n} others");
        ensure_eq!(tgot.is_ok(), want, "parsing {t:?} after {n} others: {tgot:?}");
        if !want {
            o.class(if stated { "conflict" } else { "not a statement" });
            return Ok(());
        }
        agree("api", &p, &m)?;
        agree("text", &q.predicates, &m)?;
        n += 1;
    }
    o.nontrivial(n > 1);
    o.class_if(!m.pre.is_empty(), "prefix");
    o.class_if(m.loose != 0, "vacuous >= or <=");
    o.class_if(sts.iter().any(|s| matches!(s, St::Num(_, Op::Head | Op::Tail, _))), "head or tail mask");
    // the order of statements is no matter
    let mut ord: Vec<usize> = (0..sts.len()).collect();
    for (i, w) in perm.iter().enumerate() {
        if i < ord.len() {
            let j = i + *w as usize % (ord.len() - i);
            ord.swap(i, j);
        }
    }
    let mut r = PktPredicates::DEFAULT;
    for i in &ord {
        let e = r.add_ext_predicate(ext(&sts[*i]));
        ensure!(e.is_ok(), "statements are accepted in one order and not as {ord:?}: {e:?}");
    }
    agree("other order", &r, &m)?;
    // printing and reading it back
    let Some(m) = m.printed() else {
        o.class("printing asks for i = 0");
        return Ok(());
    };
    let lines: Vec<String> = p.iter().map(|r| r.to_string()).collect();
    ensure_eq!(p.to_string(), lines.iter().map(|l| format!("{l}\n")).collect::<String>(), "Display is a line per rule");
    for (what, t) in [("Display", p.to_string()), ("to_str(true)", p.to_str(true)), ("to_str(false)", p.to_str(false)), ("Query::to_str", q.to_str(true)), ("Query::to_str plain", q.to_str(false))] {
        let mut back = Query::DEFAULT;
        if let Err(e) = back.parse(t.as_bytes(), &CORE_SCOPE) {
            bail_fail(format!("{what}: {t:?} is not read back: {e:?}"))?
        }
        agree(what, &back.predicates, &m)?;
        ensure!(t.is_ascii() && !t.bytes().any(|b| b < 32 && b != b'\n'), "{what}: prints control bytes {t:?}");
    }
    let mut via = PktPredicates::DEFAULT;
    for r in p.iter() {
        ensure!(via.add_predicate(&r).is_ok(), "rule {r} is refused on its own set");
    }
    agree("rules", &via, &m)
}
pub fn pick(l: &[&'static [u8]]) -> BoxedStrategy<Vec<u8>> {
    select(l.iter().map(|v| v.to_vec()).collect::<Vec<_>>()).boxed()
}
pub fn bail_fail(m: String) -> Res {
    ensure!(false, "{m}");
    Ok(())
}
fn nofield((i, op, v, b): &(usize, Op, Vec<u8>, u8), o: &mut Obs) -> Res {
    let s = St::No(*i, *op, v.clone());
    let mut p = PktPredicates::DEFAULT;
    ensure!(p.add_ext_predicate(ext(&s)).is_err(), "{s:?} is accepted");
    let mut q = Query::DEFAULT;
    ensure!(q.parse(text(&s, 0).as_bytes(), &CORE_SCOPE).is_err(), "{:?} is accepted", text(&s, 0));
    // field ids (single bytes) name no predicates
    let mut q = Query::DEFAULT;
    let line = [&[*b][..], b":=:a"].concat();
    if *b != b'i' && *b != b'\n' {
        let r = q.parse(&line, &CORE_SCOPE);
        ensure!(r.is_err() || *b == b':' || *b == b'/', "{line:?} is a statement");
    }
    o.nontrivial(true);
    Ok(())
}
// ------------------------------------------------------------------ queries as text
const NAMES: [&str; 7] = ["mode", "qid", "follow", "notify-close", "x", "", "x y"];
#[derive(Clone, Debug)]
enum Line {
    S(St, u8),
    /// :name:value:value
    O(usize, Vec<Vec<u8>>),
    /// /name
    Slash(usize),
    Blank,
}
fn line() -> BoxedStrategy<Line> {
    let val = prop_oneof![pick(&[&b"hash-asc"[..], b"tree-desc", b"log-asc", b"log-desc", b"a/b", b"a:b", b"[x]", b"\\n\n", b"", b"q"]), vec(any::<u8>(), 0..4)];
    let base = Just(FIELDS.iter().map(|f| Some(vec![5; f.1])).collect::<Vec<_>>());
    prop_oneof![
        3 => (base.prop_flat_map(|b| st(Some(b))), any::<u8>()).prop_map(|(s, y)| Line::S(s, y)),
        6 => (0..NAMES.len(), prop_oneof![3 => vec(val.clone(), 1), 1 => vec(val, 0..3)]).prop_map(|(n, v)| Line::O(n, v)),
        1 => (0..NAMES.len()).prop_map(Line::Slash),
        1 => Just(Line::Blank),
    ]
    .boxed()
}
type Opt = Vec<(char, Vec<u8>)>;
fn optline(l: &Opt) -> String {
    l.iter().map(|(c, v)| format!("{c}{}", v.iter().map(|b| if b.is_ascii_alphanumeric() || *b == b'-' { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect::<String>())).collect()
}
/// The first entry from the top whose first component is `name`:
/// outer None: there is none, Err: it is no plain value
fn lookup(o: &[Opt], name: &[u8]) -> Option<Result<Option<Vec<u8>>, ()>> {
    let e = o.iter().find(|e| e[0].1 == name)?;
    Some(match &e[..] {
        [(':', _)] => Ok(None),
        [(':', _), (':', v)] => Ok(Some(v.clone())),
        _ => Err(()),
    })
}
fn query_text(texts: &Vec<Vec<Line>>, o: &mut Obs) -> Res {
    let mut q = Query::DEFAULT;
    let mut by_line = Query::DEFAULT;
    let mut m = Mod::default();
    let mut opts: Vec<Opt> = vec![]; // topmost first
    for t in texts {
        let mut here: Vec<Opt> = vec![];
        let mut lines = vec![];
        let mut ok = true;
        for l in t {
            match l {
                Line::S(s, y) => {
                    ok = ok && m.add(s) && m.valid();
                    lines.push(text(s, *y))
                }
                Line::O(n, v) => {
                    let e: Opt = std::iter::once(NAMES[*n].as_bytes().to_vec()).chain(v.clone()).map(|b| (':', b)).collect();
                    lines.push(optline(&e));
                    here.push(e);
                    let v: Vec<&[u8]> = v.iter().map(|v| &v[..]).collect();
                    by_line.add_option(NAMES[*n], &v);
                }
                Line::Slash(n) => {
                    let e: Opt = vec![('/', NAMES[*n].as_bytes().to_vec())];
                    lines.push(optline(&e));
                    let r = by_line.parse(lines.last().unwrap().as_bytes(), &CORE_SCOPE);
                    ensure!(r.is_ok(), "{:?}: {r:?}", lines.last());
                    here.push(e);
                }
                Line::Blank => lines.push(String::new()),
            }
        }
        let txt = lines.join("\n");
        let r = q.parse(txt.as_bytes(), &CORE_SCOPE);
        ensure_eq!(r.is_ok(), ok, "parse of {txt:?}: {r:?}");
        if !ok {
            o.class("text refused");
            return Ok(());
        }
        // a text is read from top to bottom, and goes on top of what is there
        here.extend(opts);
        opts = here;
    }
    agree("text", &q.predicates, &m)?;
    let mut seen: Vec<&[u8]> = opts.iter().map(|e| &e[0].1[..]).collect();
    seen.sort();
    let total = seen.len();
    seen.dedup();
    o.nontrivial(!opts.is_empty());
    o.class_if(seen.len() < total, "an option given more than once");
    let look = |what: &str, q: &Query| -> Res {
        for n in NAMES {
            let want = lookup(&opts, n.as_bytes());
            let got = q.get_option(n.as_bytes());
            match (&want, &got) {
                (None, Ok(None)) => {}
                (Some(Ok(v)), Ok(Some(g))) => ensure_eq!(g.map(|g| g.to_vec()), *v, "{what}: option {n:?} of {q}"),
                (Some(Err(())), Err(_)) => {}
                _ => ensure!(false, "{what}: option {n:?} of {q} is {got:?}, expected {want:?}"),
            }
            if let Ok(k) = n.parse::<KnownOptions>() {
                let g = q.get_known_opt(k).map_err(|_| ());
                ensure_eq!(g, q.get_option(n.as_bytes()).map_err(|_| ()), "{what}: get_known_opt({n})");
            }
        }
        let mode = match lookup(&opts, b"mode") {
            None | Some(Ok(None)) => Ok(None),
            Some(Err(())) => Err(()),
            Some(Ok(Some(v))) => match ["hash-asc", "hash-desc", "tree-asc", "tree-desc", "log-asc", "log-desc"].iter().find(|m| m.as_bytes() == v) {
                Some(m) => Ok(Some(m.to_string())),
                None => Err(()),
            },
        };
        ensure_eq!(q.mode().map(|m| m.map(|m| m.to_string())).map_err(|_| ()), mode, "{what}: mode of {q}");
        let gm = mode.map(|m| m.unwrap_or("tree-desc".into()));
        ensure_eq!(q.get_mode().map(|m| m.to_string()).map_err(|_| ()), gm, "{what}: get_mode");
        Ok(())
    };
    look("parsed", &q)?;
    if texts.iter().all(|t| t.iter().filter(|l| matches!(l, Line::O(..) | Line::Slash(_))).count() < 2) {
        by_line.predicates = q.predicates.clone();
        look("added one by one", &by_line)?;
    }
    // and as printed
    let Some(m) = m.printed() else { return Ok(()) };
    for (what, t) in [("to_str(true)", q.to_str(true)), ("to_str(false)", q.to_str(false)), ("Display", q.to_string())] {
        let mut b = Query::DEFAULT;
        let r = b.parse(t.as_bytes(), &CORE_SCOPE);
        ensure!(r.is_ok(), "{what}: {t:?} is not read back: {r:?}");
        agree(what, &b.predicates, &m)?;
        look(what, &b)?;
        stable(&b)?;
    }
    Ok(())
}
/// printing and reading settles (the first rounds may spell out implied types)
fn stable(q: &Query) -> Res {
    let mut last = q.to_str(true);
    for k in 0..3 {
        let mut c = Query::DEFAULT;
        ensure!(c.parse(last.as_bytes(), &CORE_SCOPE).is_ok(), "{last:?} is not read back");
        let t = c.to_str(true);
        ensure!(k < 2 || t == last, "printing does not settle: {last:?} then {t:?}");
        last = t;
    }
    Ok(())
}
fn soup() -> BoxedStrategy<Vec<u8>> {
    let tok = prop_oneof![
        6 => (0..FIELDS.len()).prop_map(|i| FIELDS[i].0.as_bytes().to_vec()),
        2 => pick(&[&b"prefix"[..], b"spacename", b"data", b"comp0", b"signature", b"rspacename", b"hash", b"domain"]),
        10 => pick(&[&b":"[..], b":", b"/", b"[", b"]", b"\\", b"\n"]),
        6 => xop().prop_map(|o| o.text().as_bytes().to_vec()),
        3 => pick(&[&b"[u8:1]"[..], b"[u16:2]", b"[u32:0]", b"[u64:0]", b"[now]", b"[now:+1D]", b"[a:x]", b"[#:pub]", b"[@:none]", b"[]", b"[:]", b"[/]", b"[//]", b"[/a]", b"[s:]", b"[~utf8]", b"[b:]", b"[~?]"]),
        3 => gen::short_bytes(),
    ];
    let stmt = (st(None), any::<u8>(), gen::mutate()).prop_map(|(s, y, m)| {
        let mut t = text(&s, y).into_bytes();
        if t.len() < 400 {
            gen::apply_mut(&mut t, &m);
        }
        t.push(b'\n');
        t
    });
    vec(prop_oneof![5 => vec(tok, 0..9).prop_map(|v| v.concat()), 3 => stmt, 6 => (st(Some(FIELDS.iter().map(|f| Some(vec![5; f.1])).collect())), any::<u8>()).prop_map(|(s, y)| (text(&s, y) + "\n").into_bytes()), 1 => gen::any_text()], 1..4).prop_map(|v| v.concat()).boxed()
}
fn fuzz(t: &Vec<u8>, o: &mut Obs) -> Res {
    let q;
    let r = match no_panic(|| {
        let mut q = Query::DEFAULT;
        let r = q.parse(t, &CORE_SCOPE).is_ok();
        (q, r)
    }) {
        Ok((q2, r)) => {
            q = q2;
            r
        }
        Err(e) => return bail_fail(format!("parsing {:?} panics: {e}", String::from_utf8_lossy(t))),
    };
    o.nontrivial(r && !(q.predicates == PktPredicates::DEFAULT));
    o.class_if(!r, "refused");
    if !r {
        return Ok(());
    }
    let printed = q.to_str(true);
    let mut b = Query::DEFAULT;
    let e = b.parse(printed.as_bytes(), &CORE_SCOPE);
    let one_hash = q.predicates.hash.as_eq().is_some();
    if one_hash && e.is_err() && !q.predicates.state.i_query.test(0) {
        return Ok(());
    }
    let linked = q.predicates.pkt_types.test(3) || q.predicates.pkt_types.test(7);
    if e.is_err() && !linked && !q.predicates.rspace_prefix.is_empty() {
        return Ok(()); // the prefix and the types already exclude each other
    }
    ensure!(e.is_ok(), "{printed:?} is not read back: {e:?}");
    stable(&b)?;
    for k in KnownOptions::iter_all() {
        ensure_eq!(b.get_known_opt(k).map_err(|_| ()), q.get_known_opt(k).map_err(|_| ()), "known option {k}");
    }
    Ok(())
}
// ------------------------------------------------------------------ deciding packets
pub fn pkt() -> BoxedStrategy<M> {
    (model::small(), comps(), 0u8..3)
        .prop_map(|(mut m, c, k)| {
            if k > 0 && model::valid_comps(&c) && m.is_linked() {
                m.comps = c;
            }
            m
        })
        .boxed()
}
fn decide_case() -> BoxedStrategy<(M, Vec<St>, Vec<M>)> {
    pkt()
        .prop_flat_map(|m| {
            let h = model::hash_of(&m);
            let mut base: Vec<Option<Vec<u8>>> = FIELDS.iter().map(|f| field_of(&m, &h, f.0)).collect();
            for b in &mut base {
                if b.is_none() {
                    *b = Some(vec![])
                }
            }
            let base: Vec<Option<Vec<u8>>> = base.into_iter().map(|b| b.filter(|b| !b.is_empty())).collect();
            let comps = m.comps.clone();
            let sp = (0..=comps.len(), any::<bool>()).prop_map(move |(n, b)| if b { St::Prefix(Op::T(TestOp::Equal), comps[..n].to_vec()) } else { St::Space(Op::T(TestOp::Equal), comps.clone()) });
            let each = prop_oneof![6 => st(Some(base)), 2 => sp];
            (Just(m), vec(each, 1..5), vec(pkt(), 0..2))
        })
        .boxed()
}
fn decide((m0, sts, others): &(M, Vec<St>, Vec<M>), o: &mut Obs) -> Res {
    let mut p = PktPredicates::DEFAULT;
    let mut m = Mod::default();
    for s in sts {
        let mut m2 = m.clone();
        if !m2.add(s) || !m2.valid() {
            continue;
        }
        m = m2;
        ensure!(p.add_ext_predicate(ext(s)).is_ok(), "{s:?} is refused");
    }
    let (tests, bound) = compile_predicates(&p);
    let tests: Vec<(Box<dyn PktStreamTest>, RuleType)> = tests.collect();
    ensure_eq!(bound, p.recv_stamp, "the receive bound");
    for (t, r) in &tests {
        ensure_eq!(t.get_field(), *r, "field of a test");
    }
    let boxed: Vec<Box<dyn PktStreamTest>> = compile_predicates(&p).0.map(|t| t.0).collect();
    for pk in std::iter::once(m0).chain(others) {
        let want = m.accepts(pk, &model::hash_of(pk));
        let kind = field_of(pk, &[0; 32], "type").unwrap()[0];
        if kind & m.loose != m.loose && !want {
            continue;
        }
        let built = pk.with(|n| {
            let b = n.as_netbox();
            let each: Vec<bool> = tests.iter().map(|t| t.0.test(&b)).collect();
            let res: Vec<Option<RuleType>> = tests.iter().map(|t| t.0.result(&b).err()).collect();
            (each, res, boxed.test(&b), boxed.result(&b))
        });
        let Ok((each, res, all, all_res)) = built else { continue };
        let ok = each.iter().all(|b| *b);
        ensure_eq!(ok, want, "the compiled tests on {pk:?}");
        ensure_eq!(all, want, "the list of tests");
        let first = tests.iter().zip(&each).find(|t| !t.1).map(|t| t.0 .1);
        ensure_eq!(all_res.err(), first, "the rule that is reported");
        for (i, r) in res.iter().enumerate() {
            ensure_eq!(*r, (!each[i]).then(|| tests[i].1), "result of test {i}");
        }
        o.class(if want { "accepted" } else { "refused" });
        o.nontrivial(!tests.is_empty());
    }
    Ok(())
}
/// a single statement on every kind of packet, by direct reading of the statement
fn single((m, i, op, k): &(M, usize, Op, Vec<u8>), o: &mut Obs) -> Res {
    let (name, n, bits) = FIELDS[*i];
    let h = model::hash_of(m);
    let Some(val) = field_of(m, &h, name) else { return Ok(()) };
    let t = &k[..n];
    let mut p = PktPredicates::DEFAULT;
    let s = St::Num(*i, *op, t.to_vec());
    if matches!(op, Op::Head | Op::Tail) || p.add_ext_predicate(ext(&s)).is_err() {
        return Ok(());
    }
    let holds = match op {
        Op::T(TestOp::Nop) => true,
        Op::T(TestOp::Equal) => val == t,
        Op::T(TestOp::Less) => &val[..] < t,
        Op::T(TestOp::Greater) => &val[..] > t,
        Op::T(TestOp::Mask0) => val.iter().zip(t).all(|(v, s)| v & !s == 0),
        Op::T(TestOp::Mask1) => val.iter().zip(t).all(|(v, s)| s & !v == 0),
        Op::Ge => &val[..] >= t,
        Op::Le => &val[..] <= t,
        _ => true,
    };
    let ty = field_of(m, &h, "type").unwrap()[0];
    let has = ty & bits == bits;
    if !has && matches!(op, Op::Ge | Op::Le) {
        return Ok(());
    }
    let tests: Vec<_> = compile_predicates(&p).0.map(|t| t.0).collect();
    let Ok(got) = m.with(|b| tests.test(&b.as_netbox())) else { return Ok(()) };
    ensure_eq!(got, has && holds, "{name} {} {t:02x?} on a packet with {val:02x?} of type {ty:#x}", op.text());
    o.nontrivial(has);
    o.class(if got { "accepted" } else { "refused" });
    Ok(())
}
#[allow(unused)]
fn unused(_: QScope, _: Predicate) {}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "D04",
            rule: "at least two statements were accepted",
            assumptions: &[],
            subs: vec![
                sub("conjunction", 60_000, 600_000, || (stmts(7), vec(any::<u8>(), 1..7), vec(any::<u16>(), 0..7)), conj),
                sub("other_fields", 10_000, 20_000, || (0..UNSUPPORTED.len(), xop(), vec(any::<u8>(), 0..9), any::<u8>()), nofield),
            ],
        },
        Property {
            id: "D05",
            rule: "an option was set, or a text gave a predicate",
            assumptions: &[],
            subs: vec![
                sub("texts", 50_000, 500_000, || vec(vec(line(), 0..5), 1..4), query_text),
                sub("any_text", 150_000, 2_000_000, soup, fuzz),
            ],
        },
        Property {
            id: "D06",
            rule: "at least one test was compiled and decided a packet",
            assumptions: &[],
            subs: vec![
                sub("decide", 40_000, 400_000, decide_case, decide),
                sub("single", 40_000, 400_000, || (pkt(), 0..FIELDS.len(), xop(), any::<u8>(), big(32)).prop_map(|(m, i, op, k, r)| {
                    let n = FIELDS[i].1;
                    let mut v = r;
                    if let Some(b) = field_of(&m, &model::hash_of(&m), FIELDS[i].0) {
                        match k % 6 { 0 => {} 1 => v[..n].copy_from_slice(&r_inc(&b).unwrap_or(b)), 2 => v[..n].copy_from_slice(&r_dec(&b).unwrap_or(b)), _ => v[..n].copy_from_slice(&b) }
                    }
                    (m, i, op, v)
                }), single),
            ],
        },
    ]
}
