//! The handshake: both sides learn the key of the other, and nothing but an answer to what was just
//! asked proves a key.
use crate::clock;
use crate::model::{key, pubkey};
use fw::*;
use linkspace::prelude::*;
use linkspace_common::prelude::*;
use linkspace_common::protocols::handshake::*;
use linkspace_common::protocols::unicast_group;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

fn np<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("{what} panicked: {e}")))
}
/// what is wrong with a message
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    Nothing,
    /// signed by another key
    Signer(u8),
    /// by another key, in its own group with the other side
    Party(u8),
    Unsigned,
    Domain,
    Group(u8),
    Space(u8),
    NoLink,
    OtherLink,
    /// the link has another tag, or stands among others: still fine
    Tag,
    Among,
    /// made this long ago, or ahead
    Stamp(i64),
    /// what the same party said in another session
    Replay,
    /// a message of this session in place of another one
    Reflect(u8),
}
#[derive(Clone, Debug)]
struct Case {
    client: u8,
    server: u8,
    max: Option<u8>,
    delays: [i64; 3],
    bad: [Bad; 3],
    wrong_id: u8,
}
fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        10 => Just(Bad::Nothing),
        2 => (0u8..4).prop_map(Bad::Signer),
        2 => (0u8..4).prop_map(Bad::Party),
        1 => Just(Bad::Unsigned),
        1 => Just(Bad::Domain),
        1 => (0u8..4).prop_map(Bad::Group),
        1 => (0u8..4).prop_map(Bad::Space),
        1 => Just(Bad::NoLink),
        1 => Just(Bad::OtherLink),
        1 => Just(Bad::Tag),
        1 => Just(Bad::Among),
        2 => prop_oneof![-20_000_000i64..20_000_000, Just(0), (-3i64..3, -16i64..17).prop_map(|(a, s)| s * 1_000_000 + a)].prop_map(Bad::Stamp),
        2 => Just(Bad::Replay),
        2 => (0u8..3).prop_map(Bad::Reflect),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let delay = || prop_oneof![4 => 0i64..2_000_000, 1 => -2_000_000i64..0, 1 => -20_000_000i64..20_000_000, 1 => (prop::sample::select(vec![-15i64, 15, 1, -1, 3, -3, 0]), -2i64..3).prop_map(|(s, d)| s * 1_000_000 + d)];
    (0u8..4, 0u8..4, proptest::option::weighted(0.4, 0u8..20), [delay(), delay(), delay()], [bad(), bad(), bad()], prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(client, server, max, delays, bad, wrong_id)| Case { client, server, max, delays, bad, wrong_id }).boxed()
}
/// a message as it comes out of the other end of a connection
fn sent(p: &NetPktBox) -> NetPktBox {
    let mut p = p.clone();
    p.net_header_mut().expect("header").hop = 1u32.into();
    p
}
struct Msg {
    signer: Option<u8>,
    domain: Domain,
    group: GroupID,
    space: RootedSpaceBuf,
    links: Vec<Link>,
    at: u64,
}
impl Msg {
    fn new(signer: u8, group: GroupID, links: &[Link], at: u64) -> Msg {
        Msg { signer: Some(signer), domain: HANDSHAKE_D, group, space: rspace_buf(&[b"sentinal"]), links: links.to_vec(), at }
    }
    fn build(&self) -> Result<NetPktBox, Fail> {
        let k = self.signer.map(key);
        Ok(try_point(self.group, self.domain, &self.space, &self.links, b"", self.at.into(), k, ()).map_err(|e| format!("{e:?}"))?.as_netbox())
    }
    fn spoil(mut self, b: Bad, others: &[LkHash]) -> Msg {
        match b {
            Bad::Signer(k) => self.signer = Some(k),
            Bad::Party(k) => {
                // from the group of the two, that of this one and the other side
                let (was, is) = (pubkey(self.signer.unwrap_or_default()), pubkey(k));
                for i in 0..32 {
                    self.group.0[i] ^= was[i] ^ is[i]
                }
                self.signer = Some(k)
            }
            Bad::Unsigned => self.signer = None,
            Bad::Domain => self.domain = ab(b"handshake"),
            Bad::Group(g) => self.group = [PUBLIC, PRIVATE, B64(pubkey(0)), B64([1; 32])][g as usize % 4],
            Bad::Space(s) => self.space = [rspace_buf(&[]), rspace_buf(&[b"sentinal", b"x"]), rspace_buf(&[b"anonymous"]), rspace_buf(&[b"sentinel"])][s as usize % 4].clone(),
            Bad::NoLink => self.links.clear(),
            Bad::OtherLink => self.links.iter_mut().for_each(|l| l.ptr = others.first().copied().unwrap_or(PUBLIC)),
            Bad::Tag => self.links.iter_mut().for_each(|l| l.tag = ab(b"tag")),
            Bad::Among => {
                self.links.insert(0, Link::new("auth", PUBLIC));
                self.links.push(Link::new("signed", PRIVATE))
            }
            Bad::Stamp(d) => self.at = self.at.wrapping_add_signed(d),
            _ => (),
        }
        self
    }
}
fn group_of(a: u8, b: u8) -> GroupID {
    let (a, b) = (pubkey(a), pubkey(b));
    B64(std::array::from_fn(|i| a[i] ^ b[i]))
}
fn shake(c: &Case, o: &mut Obs) -> Res {
    let t0 = clock::start();
    let res = run(c, t0 + 60_000_000, o);
    clock::real();
    res
}
fn signer_of(p: &NetPktBox) -> Option<[u8; 32]> {
    p.pubkey().map(|k| k.0).filter(|k| *k != [0; 32])
}
fn run(c: &Case, t0: u64, o: &mut Obs) -> Res {
    let (ck, sk) = (key(c.client), key(c.server));
    let g = group_of(c.client, c.server);
    ensure_eq!(unicast_group(ck.pubkey(), sk.pubkey()), g, "group of two");
    ensure_eq!(unicast_group(sk.pubkey(), ck.pubkey()), g, "group of two, the other way");
    ensure_eq!(g == PRIVATE, c.client % 4 == c.server % 4, "the private group is that of one key with itself");
    let max = c.max.map(|m| m as usize);
    let limit = max.unwrap_or(15) as u64 * 1_000_000;
    let fresh = |p: &NetPktBox, now: u64| p.get_create_stamp().get().abs_diff(now) < limit;
    // another session between the two, before
    clock::set(t0 - 1_000_000);
    let old0 = np("phase0", || phase0_client_init(ck))?;
    let old1 = phase1_server_signs(&Phase0(sent(&old0.0)), sk, max);
    let old2 = old1.as_ref().ok().and_then(|p| phase2_client_signs(&old0, &Phase1(sent(&p.0)), ck, max).ok());
    let old1 = old1.ok();
    // what the client says first
    clock::set(t0);
    let p0 = np("phase0", || phase0_client_init(ck))?;
    ensure_eq!((signer_of(&p0.0), p0.0.get_create_stamp().get()), (Some(pubkey(c.client)), t0), "the first message");
    let mut seen0 = sent(&p0.0);
    let mut changed = false;
    match c.bad[0] {
        Bad::Nothing | Bad::NoLink | Bad::OtherLink | Bad::Tag | Bad::Among | Bad::Reflect(_) | Bad::Domain | Bad::Group(_) | Bad::Space(_) => (),
        Bad::Replay => {
            seen0 = sent(&old0.0);
            changed = true
        }
        b => {
            seen0 = sent(&Msg::new(c.client, *p0.0.get_group(), &[], t0).spoil(b, &[]).build()?);
            changed = seen0.hash() != p0.0.hash()
        }
    }
    let seen0 = Phase0(seen0);
    // the server
    let t1 = t0.wrapping_add_signed(c.delays[0]);
    clock::set(t1);
    let r = np("phase1", || phase1_server_signs(&seen0, sk, max))?;
    let ok = match signer_of(&seen0.0) {
        None => false,
        Some(k) => fresh(&seen0.0, t1) && k != pubkey(c.server),
    };
    ensure_eq!(r.is_ok(), ok, "the server's answer to {:?} by {:?} at {} (now {t1}, limit {limit}): {:?}", c.bad[0], signer_of(&seen0.0).map(B64), seen0.0.get_create_stamp().get(), r.as_ref().err().map(|e| e.to_string()));
    let Ok(p1) = r else {
        o.class("first message refused");
        return Ok(());
    };
    let g1: GroupID = unicast_group(B64(signer_of(&seen0.0).unwrap()), sk.pubkey());
    ensure_eq!((signer_of(&p1.0), p1.0.domain(), p1.0.group(), p1.0.get_create_stamp().get()), (Some(pubkey(c.server)), Some(&HANDSHAKE_D), Some(&g1), t1), "the server's answer");
    ensure!(p1.0.get_links().iter().any(|l| l.ptr == seen0.0.hash()), "the server's answer does not link to the question");
    let mut seen1 = sent(&p1.0);
    match c.bad[1] {
        Bad::Nothing => (),
        Bad::Replay => seen1 = old1.as_ref().map(|p| sent(&p.0)).unwrap_or(seen1),
        Bad::Reflect(k) => seen1 = [sent(&p0.0), sent(&seen0.0), old2.as_ref().map(|p| sent(&p.0.0)).unwrap_or(sent(&p0.0))][k as usize % 3].clone(),
        b => seen1 = sent(&Msg::new(c.server, g1, &[Link::new("auth", seen0.0.hash())], t1).spoil(b, &[old0.0.hash()]).build()?),
    }
    let seen1 = Phase1(seen1);
    // the client
    let t2 = t1.wrapping_add_signed(c.delays[1]);
    clock::set(t2);
    let id2 = if c.wrong_id == 1 { key(c.client + 1) } else { ck };
    let r = np("phase2", || phase2_client_signs(&p0, &seen1, id2, max))?;
    let answers = |p: &NetPktBox, to: LkHash, me: [u8; 32]| -> Option<[u8; 32]> {
        let k = signer_of(p)?;
        let g: [u8; 32] = std::array::from_fn(|i| k[i] ^ me[i]);
        let space: Vec<Vec<u8>> = p.get_rooted_spacename().iter().map(|c| c.to_vec()).collect();
        (p.get_links().iter().any(|l| l.ptr == to) && p.get_domain()[..] == HANDSHAKE_D[..] && p.get_group().0 == g && space == [b"sentinal".to_vec()]).then_some(k)
    };
    let want = if id2.pubkey() != ck.pubkey() || !fresh(&seen1.0, t2) { None } else { answers(&seen1.0, p0.0.hash(), pubkey(c.client)) };
    ensure_eq!(r.as_ref().ok().map(|r| r.1.0), want, "whose answer the client took for {:?} (first message changed: {changed}): {:?}", c.bad[1], r.as_ref().err().map(|e| e.to_string()));
    let Ok((p2, their)) = r else {
        o.class("answer refused");
        return Ok(());
    };
    let g2 = unicast_group(ck.pubkey(), their);
    ensure_eq!((signer_of(&p2.0), p2.0.domain(), p2.0.group(), p2.0.get_create_stamp().get()), (Some(pubkey(c.client)), Some(&HANDSHAKE_D), Some(&g2), t2), "the client's proof");
    ensure!(p2.0.get_links().iter().any(|l| l.ptr == seen1.0.hash()), "the client's proof does not link to the answer");
    let mut seen2 = sent(&p2.0);
    match c.bad[2] {
        Bad::Nothing => (),
        Bad::Replay => seen2 = old2.as_ref().map(|p| sent(&p.0.0)).unwrap_or(seen2),
        Bad::Reflect(k) => seen2 = [sent(&p0.0), sent(&p1.0), old1.as_ref().map(|p| sent(&p.0)).unwrap_or(sent(&p0.0))][k as usize % 3].clone(),
        b => seen2 = sent(&Msg::new(c.client, g2, &[Link::new("signed", seen1.0.hash())], t2).spoil(b, &[old1.as_ref().map(|p| p.0.hash()).unwrap_or(PUBLIC)]).build()?),
    }
    let seen2 = Phase2(seen2);
    clock::set(t2.wrapping_add_signed(c.delays[2]));
    let id3 = if c.wrong_id == 2 { key(c.server + 1) } else { sk };
    let r = np("phase3", || phase3_server_verify(&seen0, &p1, &seen2, id3))?;
    let want = if id3.pubkey() != sk.pubkey() || signer_of(&seen2.0) != signer_of(&seen0.0) { None } else { answers(&seen2.0, p1.0.hash(), pubkey(c.server)) };
    ensure_eq!(r.as_ref().ok().map(|r| r.0), want, "whose proof the server took for {:?}: {:?}", c.bad[2], r.as_ref().err().map(|e| e.to_string()));
    o.class(if want.is_some() { "both know each other" } else { "proof refused" });
    o.nontrivial(true);
    if c.bad == [Bad::Nothing; 3] && c.wrong_id == 0 {
        ensure_eq!((want, their.0), (Some(pubkey(c.client)), pubkey(c.server)), "an undisturbed handshake");
        o.class("undisturbed")
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L08",
        rule: "the handshake came to the last message",
        assumptions: &["packets come from a reader that checks signatures and counts the hop"],
        subs: vec![sub("handshake", 6_000, 100_000, case, shake)],
    }]
}
