//! C01 signatures, C02 hashing, C03 encrypted keys, C04 damaged encrypted keys.
use crate::refabe::{b64std_nopad, b64url};
use byte_fmt::U256;
use fw::*;
use linkspace_argon2_identity::{decrypt, encrypt, pubkey, Costs, KeyError, INSECURE_COST};
use linkspace_cryptography::{hash_segments, sign_hash, validate_signature, SigningKey};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::sync::LazyLock;

// ------------------------------------------------------------------ reference BIP-340
fn hex(s: &str) -> U256 {
    U256::from_str_radix(s, 16).unwrap()
}
static P: LazyLock<U256> = LazyLock::new(|| hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"));
static N: LazyLock<U256> = LazyLock::new(|| hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"));
static G: LazyLock<(U256, U256)> = LazyLock::new(|| {
    (
        hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
        hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
    )
});
fn u(b: &[u8]) -> U256 {
    U256::try_from_be_slice(b).unwrap()
}
fn b32(v: U256) -> [u8; 32] {
    v.to_be_bytes()
}
fn mul(a: U256, b: U256) -> U256 {
    a.mul_mod(b, *P)
}
fn add(a: U256, b: U256) -> U256 {
    a.add_mod(b, *P)
}
fn sub_(a: U256, b: U256) -> U256 {
    a.add_mod(*P - b, *P)
}
type J = Option<(U256, U256, U256)>;
fn dbl(p: J) -> J {
    let (x, y, z) = p?;
    if y.is_zero() {
        return None;
    }
    let a = mul(x, x);
    let b = mul(y, y);
    let c = mul(b, b);
    let t = mul(x, b);
    let d = add(add(t, t), add(t, t));
    let e = add(a, add(a, a));
    let f = mul(e, e);
    let x3 = sub_(f, add(d, d));
    let c8 = { let c2 = add(c, c); let c4 = add(c2, c2); add(c4, c4) };
    let y3 = sub_(mul(e, sub_(d, x3)), c8);
    let yz = mul(y, z);
    Some((x3, y3, add(yz, yz)))
}
fn padd(p: J, q: J) -> J {
    let (Some((x1, y1, z1)), Some((x2, y2, z2))) = (p, q) else { return p.or(q) };
    let (z1z1, z2z2) = (mul(z1, z1), mul(z2, z2));
    let (u1, u2) = (mul(x1, z2z2), mul(x2, z1z1));
    let (s1, s2) = (mul(y1, mul(z2, z2z2)), mul(y2, mul(z1, z1z1)));
    if u1 == u2 {
        return if s1 == s2 { dbl(p) } else { None };
    }
    let h = sub_(u2, u1);
    let r = sub_(s2, s1);
    let h2 = mul(h, h);
    let h3 = mul(h, h2);
    let v = mul(u1, h2);
    let x3 = sub_(sub_(mul(r, r), h3), add(v, v));
    let y3 = sub_(mul(r, sub_(v, x3)), mul(s1, h3));
    Some((x3, y3, mul(h, mul(z1, z2))))
}
fn smul(mut k: U256, p: J) -> J {
    let mut acc = None;
    let mut q = p;
    while !k.is_zero() {
        if k.bit(0) {
            acc = padd(acc, q)
        }
        q = dbl(q);
        k = k >> 1;
    }
    acc
}
fn affine(p: J) -> Option<(U256, U256)> {
    let (x, y, z) = p?;
    let zi = z.pow_mod(*P - U256::from(2), *P);
    let z2 = mul(zi, zi);
    Some((mul(x, z2), mul(y, mul(z2, zi))))
}
fn gen_point() -> J {
    Some((G.0, G.1, U256::from(1)))
}
fn lift_x(x: U256) -> Option<(U256, U256)> {
    if x >= *P {
        return None;
    }
    let c = add(mul(x, mul(x, x)), U256::from(7));
    let y = c.pow_mod((*P + U256::from(1)) >> 2, *P);
    if mul(y, y) != c {
        return None;
    }
    Some((x, if y.bit(0) { *P - y } else { y }))
}
fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    let t = Sha256::digest(tag.as_bytes());
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    for p in parts {
        h.update(p)
    }
    h.finalize().into()
}
fn reduce(b: &[u8]) -> U256 {
    let v = u(b);
    if v >= *N { v - *N } else { v }
}
fn ref_pub(sk: &[u8; 32]) -> Option<[u8; 32]> {
    let d = u(sk);
    if d.is_zero() || d >= *N {
        return None;
    }
    Some(b32(affine(smul(d, gen_point()))?.0))
}
fn ref_sign(sk: &[u8; 32], msg: &[u8; 32]) -> Option<[u8; 64]> {
    let d0 = u(sk);
    if d0.is_zero() || d0 >= *N {
        return None;
    }
    let (px, py) = affine(smul(d0, gen_point()))?;
    let d = if py.bit(0) { *N - d0 } else { d0 };
    let mask = tagged("BIP0340/aux", &[&[0; 32]]);
    let t: Vec<u8> = b32(d).iter().zip(mask).map(|(a, b)| a ^ b).collect();
    let k0 = reduce(&tagged("BIP0340/nonce", &[&t, &b32(px), msg]));
    let (rx, ry) = affine(smul(k0, gen_point()))?;
    let k = if ry.bit(0) { *N - k0 } else { k0 };
    let e = reduce(&tagged("BIP0340/challenge", &[&b32(rx), &b32(px), msg]));
    let s = k.add_mod(e.mul_mod(d, *N), *N);
    let mut out = [0; 64];
    out[..32].copy_from_slice(&b32(rx));
    out[32..].copy_from_slice(&b32(s));
    Some(out)
}
fn ref_verify(pk: &[u8; 32], sig: &[u8; 64], msg: &[u8; 32]) -> bool {
    let Some((px, py)) = lift_x(u(pk)) else { return false };
    let (r, s) = (u(&sig[..32]), u(&sig[32..]));
    if r >= *P || s >= *N {
        return false;
    }
    let e = reduce(&tagged("BIP0340/challenge", &[&sig[..32], &b32(px), msg]));
    let q = smul(s, gen_point());
    let w = smul((*N - e) % *N, Some((px, py, U256::from(1))));
    match affine(padd(q, w)) {
        Some((x, y)) => !y.bit(0) && x == r,
        None => false,
    }
}
// ------------------------------------------------------------------ generators
fn b32s() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        6 => any::<[u8; 32]>(),
        1 => (0u8..=40).prop_map(|v| { let mut b = [0; 32]; b[31] = v; b }),
        // around the group order and the field size
        1 => (any::<bool>(), -3i64..=3).prop_map(|(n, d)| {
            let base = if n { *N } else { *P };
            let v = if d < 0 { base - U256::from(-d as u64) } else { base + U256::from(d as u64) };
            b32(v)
        }),
        1 => (0usize..256).prop_map(|i| { let mut b = [0; 32]; b[i / 8] = 1 << (i % 8); b }),
        1 => Just([255; 32]),
        1 => (any::<u8>(), 0usize..32).prop_map(|(v, i)| { let mut b = [0; 32]; b[i] = v; b }),
    ]
    .boxed()
}
#[derive(Debug, Clone)]
enum Alt {
    Bits(Vec<u16>),
    Set(u8, [u8; 32]),
    NegS,
    AddN,
    AddP,
    SwapHalves,
    Reverse,
    OtherKey,
    OtherHash,
    Zero(u8),
}
fn alt() -> BoxedStrategy<Alt> {
    prop_oneof![
        5 => (0u16..1024).prop_map(|b| Alt::Bits(vec![b])),
        2 => vec(0u16..1024, 1..=4).prop_map(Alt::Bits),
        2 => (0u8..4, b32s()).prop_map(|(i, b)| Alt::Set(i, b)),
        1 => Just(Alt::NegS),
        1 => Just(Alt::AddN),
        1 => Just(Alt::AddP),
        1 => Just(Alt::SwapHalves),
        1 => Just(Alt::Reverse),
        1 => Just(Alt::OtherKey),
        1 => Just(Alt::OtherHash),
        1 => (0u8..4).prop_map(Alt::Zero),
    ]
    .boxed()
}
fn flip(part: &mut [u8], bit: usize) {
    part[bit / 8] ^= 1 << (bit % 8)
}
fn signatures((sk, h, sk2, h2, alts): &([u8; 32], [u8; 32], [u8; 32], [u8; 32], Vec<Alt>), o: &mut Obs) -> Res {
    let want = ref_pub(sk);
    let key = SigningKey::try_from(*sk);
    ensure_eq!(key.is_ok(), want.is_some(), "key {} accepted", b64url(sk));
    let Ok(key) = key else {
        o.class("secret refused");
        return Ok(());
    };
    let pk = key.pubkey_bytes();
    ensure_eq!(Some(pk), want, "public key");
    let sig = sign_hash(&key, h);
    ensure_eq!(sign_hash(&key, h), sig, "signing twice");
    ensure_eq!(sign_hash(&key.clone(), h), sig, "signing with a copy of the key");
    ensure_eq!(Some(sig), ref_sign(sk, h), "BIP-340 signature");
    ensure!(validate_signature(&pk, &sig, h).is_ok(), "own signature refused");
    ensure!(!format!("{key:?}").contains(&format!("{sk:?}")), "secret printed");
    // the stored secret opens the same key
    let again = SigningKey::try_from(key.0.to_bytes().into()).map_err(|e| e.to_string())?;
    ensure_eq!((again.pubkey_bytes(), sign_hash(&again, h)), (pk, sig), "key read back");
    for a in alts {
        let (mut p, mut s, mut m) = (pk, sig, *h);
        match a {
            Alt::Bits(bits) => {
                for b in bits {
                    match *b as usize {
                        b if b < 256 => flip(&mut p, b),
                        b if b < 768 => flip(&mut s, b - 256),
                        b => flip(&mut m, b - 768),
                    }
                }
            }
            Alt::Set(0, b) => p = *b,
            Alt::Set(1, b) => s[..32].copy_from_slice(b),
            Alt::Set(2, b) => s[32..].copy_from_slice(b),
            Alt::Set(_, b) => m = *b,
            Alt::NegS => s[32..].copy_from_slice(&b32((*N - u(&sig[32..])) % *N)),
            Alt::AddN => s[32..].copy_from_slice(&b32(u(&sig[32..]).wrapping_add(*N))),
            Alt::AddP => s[..32].copy_from_slice(&b32(u(&sig[..32]).wrapping_add(*P))),
            Alt::SwapHalves => s.rotate_left(32),
            Alt::Reverse => s.reverse(),
            Alt::OtherKey => {
                if let Some(k) = ref_pub(sk2) {
                    p = k
                }
            }
            Alt::OtherHash => m = *h2,
            Alt::Zero(0) => p = [0; 32],
            Alt::Zero(1) => s[..32].fill(0),
            Alt::Zero(2) => s[32..].fill(0),
            Alt::Zero(_) => s.fill(0),
        }
        let same = (p, s, m) == (pk, sig, *h);
        let got = validate_signature(&p, &s, &m);
        ensure_eq!(got.is_ok(), same, "altered by {a:?}: accepted");
        o.class_if(!same && ref_verify_shape(&p, &s), "well-formed but wrong");
        o.class_if(!same && !ref_verify_shape(&p, &s), "malformed");
    }
    o.nontrivial(!alts.is_empty());
    Ok(())
}
fn ref_verify_shape(p: &[u8; 32], s: &[u8; 64]) -> bool {
    lift_x(u(p)).is_some() && u(&s[..32]) < *P && u(&s[32..]) < *N
}
/// arbitrary parts (also valid ones made by the reference): the verdict is the reference's
fn verdicts((sk, h, p, s1, s2, mode): &([u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32], u8), o: &mut Obs) -> Res {
    let (mut pk, mut sig) = (*p, [0; 64]);
    sig[..32].copy_from_slice(s1);
    sig[32..].copy_from_slice(s2);
    if mode & 1 == 1 {
        if let Some(k) = ref_pub(sk) {
            pk = k
        }
    }
    if mode & 6 != 0 {
        if let Some(s) = ref_sign(sk, h) {
            sig = s
        }
    }
    let want = ref_verify(&pk, &sig, h);
    ensure_eq!(validate_signature(&pk, &sig, h).is_ok(), want, "verdict on pk {pk:?} sig {sig:?}");
    o.class_if(want, "valid");
    o.class_if(!want, "invalid");
    o.nontrivial(lift_x(u(&pk)).is_some());
    Ok(())
}
/// the published BIP-340 vectors that use a 32-byte message
fn vectors() -> Vec<(&'static str, &'static str, &'static str, &'static str, bool)> {
    vec![
        ("0000000000000000000000000000000000000000000000000000000000000003", "F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9", "0000000000000000000000000000000000000000000000000000000000000000", "E907831F80848D1069A5371B402410364BDF1C5F8307B0084C55F1CE2DCA821525F66A4A85EA8B71E482A74F382D2CE5EBEEE8FDB2172F477DF4900D310536C0", true),
    ]
}
fn vector(v: &(&'static str, &'static str, &'static str, &'static str, bool), o: &mut Obs) -> Res {
    let sk = b32(hex(v.0));
    let pk = b32(hex(v.1));
    let m = b32(hex(v.2));
    let mut sig = [0; 64];
    sig[..32].copy_from_slice(&b32(hex(&v.3[..64])));
    sig[32..].copy_from_slice(&b32(hex(&v.3[64..])));
    ensure_eq!(ref_sign(&sk, &m), Some(sig), "reference signature");
    ensure_eq!(ref_verify(&pk, &sig, &m), v.4, "reference verdict");
    ensure_eq!(sign_hash(&SigningKey::try_from(sk).unwrap(), &m), sig, "signature");
    ensure_eq!(validate_signature(&pk, &sig, &m).is_ok(), v.4, "verdict");
    o.nontrivial(true);
    Ok(())
}
// ------------------------------------------------------------------ C02
fn segments((data, cuts): &(Vec<u8>, Vec<u16>), o: &mut Obs) -> Res {
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (data.len() + 1)).collect();
    at.sort();
    let mut parts: Vec<&[u8]> = vec![];
    let mut last = 0;
    for a in at {
        parts.push(&data[last..a]);
        last = a;
    }
    parts.push(&data[last..]);
    let want = *blake3::hash(data).as_bytes();
    ensure_eq!(hash_segments(&parts), want, "hash of {} bytes in {} segments", data.len(), parts.len());
    ensure_eq!(hash_segments(&[data]), want, "hash of {} bytes in one segment", data.len());
    let bytewise: Vec<&[u8]> = data.chunks(1).collect();
    if data.len() < 3000 {
        ensure_eq!(hash_segments(&bytewise), want, "hash of {} bytes bytewise", data.len());
    }
    // sensitive to order and content
    if let Some(i) = parts.windows(2).position(|w| [w[0], w[1]].concat() != [w[1], w[0]].concat()) {
        let mut swapped = parts.clone();
        swapped.swap(i, i + 1);
        ensure!(hash_segments(&swapped) != want, "swapping segments keeps the hash");
        o.class("segments swapped");
    }
    o.class_if(parts.iter().any(|p| p.is_empty()), "empty segment");
    o.class_if(data.len() > 1024, "several chunks");
    o.class_if(data.is_empty(), "empty");
    o.nontrivial(parts.len() > 1 && !data.is_empty());
    Ok(())
}
fn big_data() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..=200),
        2 => (prop::sample::select(vec![63usize, 64, 65, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 8191, 8192, 8193, 16384, 16385, 65535]), any::<u64>()).prop_map(|(n, s)| (0..n).map(|i| (s.wrapping_mul(i as u64 + 1).wrapping_add(s >> 7) >> 32) as u8).collect()),
        1 => (0usize..70000, any::<u64>()).prop_map(|(n, s)| (0..n).map(|i| (s.wrapping_mul(i as u64 + 3) >> 24) as u8).collect()),
    ]
    .boxed()
}
// ------------------------------------------------------------------ C03
fn secret() -> BoxedStrategy<[u8; 32]> {
    b32s().prop_map(|b| if ref_valid(&b) { b } else { [7; 32] }).boxed()
}
fn ref_valid(b: &[u8; 32]) -> bool {
    let d = u(b);
    !d.is_zero() && d < *N
}
fn costs() -> BoxedStrategy<C> {
    prop_oneof![
        3 => Just((8, 1, 1)),
        3 => (1u32..=4, 0u32..=56, 1u32..=3).prop_map(|(l, m, t)| (8 * l + m, t, l)),
        1 => (1u32..=2, 1u32..=2).prop_map(|(l, t)| (256, t, l)),
    ]
    .prop_map(|(mem, times, parallelism)| C(Costs { mem, times, parallelism }))
    .boxed()
}
fn password() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => vec(any::<u8>(), 0..=20),
        2 => "[a-zA-Z0-9 ]{1,20}".prop_map(|s: String| s.into_bytes()),
        1 => vec(any::<u8>(), 60..=300),
        1 => vec(Just(0u8), 1..=5),
    ]
    .boxed()
}
fn layout(key: &SigningKey, pw: &[u8], c: &Costs) -> String {
    let pk = key.pubkey_bytes();
    let digest = argon2::hash_raw(
        pw,
        &pk,
        &argon2::Config {
            variant: argon2::Variant::Argon2d,
            version: argon2::Version::Version13,
            mem_cost: c.mem,
            time_cost: c.times,
            lanes: c.parallelism,
            secret: &[],
            ad: &[],
            hash_length: 32,
        },
    )
    .unwrap();
    let x: Vec<u8> = digest.iter().zip(key.0.to_bytes()).map(|(a, b)| a ^ b).collect();
    format!("$argon2d$v=19$m={},t={},p={}${}${}", c.mem, c.times, c.parallelism, b64std_nopad(&pk), b64std_nopad(&x))
}

#[derive(Clone)]
struct C(Costs);
impl std::fmt::Debug for C {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "m={},t={},p={}", self.0.mem, self.0.times, self.0.parallelism)
    }
}
fn keys((sk, pw, c, others): &([u8; 32], Vec<u8>, C, Vec<(Vec<u8>, u16, u8)>), o: &mut Obs) -> Res {
    let key = SigningKey::try_from(*sk).map_err(|e| e.to_string())?;
    let text = encrypt(&key, pw, Some(c.0));
    ensure_eq!(text, layout(&key, pw, &c.0), "layout");
    ensure!(!text.contains('\n') && text.bytes().all(|b| (0x21..0x7f).contains(&b)), "one line of printable text: {text:?}");
    ensure_eq!(encrypt(&key, pw, Some(c.0)), text, "encrypting twice");
    ensure_eq!(pubkey(&text).ok(), Some(key.pubkey_bytes()), "public key without password");
    let back = decrypt(&text, pw).map_err(|e| format!("own password refused: {e}"))?;
    ensure_eq!(back.0.to_bytes(), key.0.to_bytes(), "recovered secret");
    ensure_eq!(back.pubkey_bytes(), key.pubkey_bytes(), "recovered key");
    // bit 0 (odd-y keys keep their public key)
    ensure_eq!(Some(back.pubkey_bytes()), ref_pub(sk), "public key of the secret");
    for (w, at, how) in others {
        let mut q = pw.clone();
        let at = if q.is_empty() { 0 } else { *at as usize % q.len() };
        match how % 6 {
            0 => q = w.clone(),
            1 if !q.is_empty() => q[at] ^= 1 << (how / 6 % 8),
            2 => q.push(0),
            3 => {
                q.pop();
            }
            4 => q.insert(at, b' '),
            _ => q.make_ascii_uppercase(),
        }
        if q == *pw {
            continue;
        }
        o.nontrivial(true);
        match decrypt(&text, &q) {
            Err(KeyError::WrongPassword) => {}
            Err(KeyError::BadData) => ensure!(false, "wrong password {q:?} reported as bad data"),
            Ok(_) => ensure!(false, "password {q:?} opens a key encrypted with {pw:?}"),
        }
    }
    o.class_if(pw.is_empty(), "empty password");
    o.class_if(pw.len() > 64, "long password");
    o.class_if(c.0.parallelism > 1, "several lanes");
    Ok(())
}
const TEST: [u8; 32] = [9; 32];
/// without costs the default costs apply
fn default_cost(sk: &[u8; 32], o: &mut Obs) -> Res {
    let key = SigningKey::try_from(*sk).map_err(|e| e.to_string())?;
    let text = encrypt(&key, b"pw", None);
    ensure_eq!(text, layout(&key, b"pw", &linkspace_argon2_identity::DEFAULT_COST), "layout with default costs");
    ensure_eq!(decrypt(&text, b"pw").ok().map(|k| k.pubkey_bytes()), Some(key.pubkey_bytes()), "own password");
    ensure!(decrypt(&text, b"pv").is_err(), "other password");
    o.nontrivial(true);
    Ok(())
}
// ------------------------------------------------------------------ C04
#[derive(Debug, Clone)]
struct Dmg {
    sk: [u8; 32],
    pw: Vec<u8>,
    kind: u8,
    i: u16,
    c: u8,
    s: Vec<u8>,
}
fn damaged(d: &Dmg, o: &mut Obs) -> Res {
    let key = SigningKey::try_from(d.sk).map_err(|e| e.to_string())?;
    let good = encrypt(&key, &d.pw, Some(INSECURE_COST));
    let f: Vec<&str> = good.split('$').collect();
    // "", argon2d, v=19, m=8,t=1,p=1, salt, secret
    let join = |v: &[&str]| v.join("$");
    let with = |i: usize, s: &str| {
        let mut v = f.clone();
        v[i] = s;
        v.join("$")
    };
    let std = b64std_nopad;
    let pk = key.pubkey_bytes();
    let xs: Vec<u8> = {
        let mut x = vec![];
        for i in 0..32 {
            let full = crate::refabe::b64std_dec(&[f[5].as_bytes(), b"="].concat()).unwrap();
            x.push(full[i])
        }
        x
    };
    let i = d.i as usize;
    #[derive(PartialEq, Clone, Copy)]
    enum W {
        Bad,    // refused as bad data by both
        Refuse, // decrypt refuses (either way), pubkey refuses as bad data
        Costs,  // structure fine, costs unusable or different: decrypt refuses or gives that key
    }
    let (text, want) = match d.kind % 22 {
        // scheme and version
        0 => (with(1, ["argon2i", "argon2id", "argon2", "ARGON2D", "argon2d ", "", "argon2dd"][i % 7]), W::Bad),
        1 => (with(2, ["v=16", "v=18", "v=20", "v=1", "v=", "19", "v=19 ", "V=19", "v=190"][i % 9]), W::Bad),
        // costs: order, names, numbers, extra and missing
        2 => (
            with(
                3,
                [
                    "t=1,m=8,p=1", "m=8,p=1,t=1", "m=8,t=1", "m=8", "", "m=8,t=1,p=1,", "m=8,t=1,p=1,k=1", ",m=8,t=1,p=1", "m=8;t=1;p=1", "m=8, t=1,p=1", "m=-8,t=1,p=1", "m=8,t=x,p=1",
                    "m=8,t=1,p=", "m=8,t=1,p", "m8,t1,p1", "m=8,t=1,p=1=1", "M=8,T=1,P=1", "m=4294967304,t=1,p=1", "m=8,t=4294967297,p=1", "m=8,t=1,p=1 ", "m=8.0,t=1,p=1", "m=8,m=8,t=1,p=1", "m=0x8,t=1,p=1", "m=8,t=1,p=1,p=1",
                ][i % 24],
            ),
            W::Bad,
        ),
        // fields missing or added
        3 => {
            let mut v = f.clone();
            v.remove(i % f.len());
            (join(&v), W::Bad)
        }
        4 => {
            let mut v = f.clone();
            v.insert(i % (f.len() + 1), ["", "x", f[4], f[5], "v=19"][d.c as usize % 5]);
            (join(&v), W::Bad)
        }
        5 => {
            let (a, b) = (i % 6, d.c as usize % 6);
            let mut v = f.clone();
            v.swap(a, b);
            // swapping salt and secret is well formed, but not the same key
            (join(&v), if v == f { return Ok(()) } else if a.min(b) == 4 { W::Costs } else { W::Bad })
        }
        // truncations and extensions
        6 => (good[..i % good.len()].to_string(), W::Bad),
        7 => (format!("{good}{}", ["$", "=", "A", " ", "\n", "$x", "AA"][i % 7]), W::Bad),
        8 => (format!("{}{good}", [" ", "$", "\n", "x"][i % 4]), W::Bad),
        // encodings
        9 => (with(4 + i % 2, &crate::refabe::b64std(if i % 2 == 0 { &pk } else { &xs })), W::Bad), // padded
        10 => {
            let t = b64url(if i % 2 == 0 { &pk } else { &xs });
            (with(4 + i % 2, &t), if t.contains('-') || t.contains('_') { W::Bad } else { return Ok(()) })
        }
        11 | 12 => {
            // one character replaced by one outside of the alphabet
            let fi = 4 + i % 2;
            let mut b = f[fi].as_bytes().to_vec();
            let at = (i / 2) % b.len();
            b[at] = b"-_.= ,:*\n\x7f"[d.c as usize % 10];
            (with(fi, std::str::from_utf8(&b).unwrap()), W::Bad)
        }
        13 => {
            // unused bits of the last character set
            let fi = 4 + i % 2;
            let mut b = f[fi].as_bytes().to_vec();
            let l = b.len() - 1;
            let alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let v = alpha.iter().position(|c| *c == b[l]).unwrap();
            b[l] = alpha[(v & !3) | (1 + d.c as usize % 3)];
            (with(fi, std::str::from_utf8(&b).unwrap()), W::Bad)
        }
        // lengths
        14 => {
            let n = [0usize, 1, 8, 16, 31, 33, 34, 48, 64][i % 9];
            let v: Vec<u8> = (0..n).map(|i| xs[i % 32]).collect();
            (with(5, &std(&v)), W::Bad)
        }
        15 => {
            let n = [0usize, 1, 7, 8, 16, 31, 33, 34, 48, 64][i % 10];
            let v: Vec<u8> = (0..n).map(|i| pk[i % 32]).collect();
            (with(4, &std(&v)), W::Refuse)
        }
        // well-formed but different
        16 => {
            let mut v = pk;
            flip(&mut v, i % 256);
            (with(4, &std(&v)), W::Costs)
        }
        17 => {
            let mut v = xs.clone();
            flip(&mut v, i % 256);
            (with(5, &std(&v)), W::Costs)
        }
        18 => (with(3, ["m=9,t=1,p=1", "m=8,t=2,p=1", "m=16,t=1,p=2", "m=16,t=1,p=1", "m=32,t=3,p=4", "m=1024,t=1,p=1"][i % 6]), W::Costs),
        // costs argon2 refuses
        19 => (with(3, ["m=0,t=1,p=1", "m=7,t=1,p=1", "m=8,t=0,p=1", "m=8,t=1,p=0", "m=8,t=1,p=2", "m=0,t=0,p=0", "m=8,t=1,p=16777216", "m=1,t=1,p=4294967295"][i % 8]), W::Costs),
        // arbitrary
        20 => (String::from_utf8_lossy(&d.s).into_owned(), W::Bad),
        _ => {
            let mut b = good.clone().into_bytes();
            let at = i % b.len();
            b[at] = d.c & 0x7f;
            let t = String::from_utf8(b).unwrap();
            if t == good {
                return Ok(());
            }
            // judged by the structural reader below; costs stay small because only one digit changed
            (t.clone(), match structure(&t) { None => W::Bad, Some((s, _)) if s.len() == 32 => W::Costs, Some(_) => W::Refuse })
        }
    };
    if want == W::Bad && structure(&text).is_some() {
        return Err(Fail::from(format!("harness: {text} is well formed")));
    }
    let p = pubkey(&text);
    let k = decrypt(&text, &d.pw);
    let name = |r: &Result<SigningKey, KeyError>| match r {
        Ok(_) => "a key",
        Err(KeyError::BadData) => "bad data",
        Err(KeyError::WrongPassword) => "wrong password",
    };
    match want {
        W::Bad => {
            o.class("malformed");
            ensure!(matches!(p, Err(KeyError::BadData)), "public key of {text:?} is {p:?}");
            ensure!(matches!(k, Err(KeyError::BadData)), "decrypting {text:?} gives {}", name(&k));
        }
        W::Refuse => {
            o.class("wrong salt length");
            ensure!(matches!(p, Err(KeyError::BadData)), "public key of {text:?} is {p:?}");
            ensure!(k.is_err(), "decrypting {text:?} gives {}", name(&k));
        }
        W::Costs => {
            o.class("altered but well formed");
            let salt = structure(&text).unwrap().0;
            ensure_eq!(p.ok().map(|v| v.to_vec()), Some(salt.clone()), "public key of {text:?}");
            if let Ok(k) = &k {
                ensure_eq!(k.pubkey_bytes().to_vec(), salt, "key opened from {text:?}");
                // different salt, secret or costs give another pad, so the same key would be a break
                ensure!(false, "altered text {text:?} still opens");
            }
        }
    }
    o.nontrivial(true);
    Ok(())
}
/// independent reader of the layout: Some(salt, secret) when well formed
fn structure(t: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let v: Vec<&str> = t.split('$').collect();
    let [e, a, ver, c, s, x] = v[..] else { return None };
    if e != "" || a != "argon2d" || ver != "v=19" {
        return None;
    }
    let o: Vec<&str> = c.split(',').collect();
    let [m, ti, p] = o[..] else { return None };
    for (o, n) in [(m, "m="), (ti, "t="), (p, "p=")] {
        let d = o.strip_prefix(n)?;
        if d.is_empty() || d.parse::<u32>().is_err() {
            return None;
        }
    }
    let dec = |t: &str| {
        if t.contains('=') {
            return None;
        }
        let pad = ["", "", "==", "="][t.len() % 4];
        crate::refabe::b64std_dec(format!("{t}{pad}").as_bytes())
    };
    let (s, x) = (dec(s)?, dec(x)?);
    (x.len() == 32).then_some((s, x))
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a valid secret with at least one alteration tried; or a public key that is a point",
            assumptions: &["the reference is an independent implementation of BIP-340 (affine/Jacobian arithmetic over 256-bit integers, SHA-256), itself checked against a published vector"],
            subs: vec![
                fixed("vectors", vectors(), vector),
                sub("signatures", 10_000, 300_000, || (b32s(), b32s(), b32s(), b32s(), vec(alt(), 1..=12)), signatures),
                sub("verdicts", 8_000, 200_000, || (b32s(), b32s(), b32s(), b32s(), b32s(), any::<u8>()), verdicts),
            ],
        },
        Property {
            id: "C02",
            rule: "non-empty data in more than one segment",
            assumptions: &["the oracle is blake3's one-shot hash"],
            subs: vec![sub("segments", 60_000, 2_000_000, || (big_data(), vec(any::<u16>(), 0..=12)), segments)],
        },
        Property {
            id: "C03",
            rule: "at least one other password is tried",
            assumptions: &["memory cost up to 256 KiB, time cost up to 3, up to 4 lanes", "argon2 itself comes from the same library as the code under test"],
            subs: vec![fixed("default cost", vec![TEST], default_cost), sub("keys", 12_000, 300_000, || (secret(), password(), costs(), vec((password(), any::<u16>(), any::<u8>()), 0..=5)), keys)],
        },
        Property {
            id: "C04",
            rule: "the text differs from a well-formed encrypted key",
            assumptions: &["costs that would need more than a few MiB or seconds are not tried", "decimal costs with a leading plus sign or zero are not decided", "no argon2 pad collides"],
            subs: vec![sub(
                "damage",
                60_000,
                2_000_000,
                || {
                    let text = prop_oneof![
                        2 => vec(any::<u8>(), 0..=40),
                        2 => vec(prop::sample::select(b"$argon2dv=19m,tp8A+/".to_vec()), 0..=80),
                        1 => "[$]argon2d[$]v=19[$]m=8,t=1,p=1[$][A-Za-z+/]{0,50}[$][A-Za-z+/]{0,42}".prop_map(|s: String| s.into_bytes()),
                    ];
                    (secret(), password(), any::<u8>(), any::<u16>(), any::<u8>(), text).prop_map(|(sk, pw, kind, i, c, s)| Dmg { sk, pw, kind, i, c, s })
                },
                damaged,
            )],
        },
    ]
}
