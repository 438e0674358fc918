//! Payload protection.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::Keys;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::quictls::{Secrets, TLS13_AES_128_GCM_SHA256};
use quic_sea::verif::utils::prelude::U160;
use quic_sea::verif::version::Version;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Seal {
    secret: Bytes,
    pn: u64,
    ad: Bytes,
    pt: Bytes,
}
fn seals(max: usize) -> BoxedStrategy<Seal> {
    (secret(), u64s(), prop_oneof![50 => content(0..60), 10 => content(0..max), dict::weight() => dict_len(max)], prop_oneof![30 => content(0..40), 10 => content(0..max), dict::weight() => dict_len(max)])
        .prop_map(|(secret, pn, ad, pt)| Seal { secret, pn, ad, pt })
        .boxed()
}
fn secrets(s: &[u8]) -> Result<Secrets, String> {
    lib("Secrets::from_secret", guard("from_secret", || Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, s))?)
}
fn check_seal(c: &Seal, o: &mut Obs) -> Check {
    let s = secrets(&c.secret)?;
    let k = Keys::from_secret(&c.secret);
    o.nontrivial();
    o.label_if(c.pt.is_empty(), "empty payload");
    o.label_if(c.ad.is_empty(), "empty associated data");
    o.label_if(c.pn > u32::MAX as u64, "pn above 32 bits");
    let ct = lib("encrypt_payload", guard("encrypt_payload", || s.encrypt_payload(&c.pt, Some(&c.ad), c.pn))?)?;
    let want = k.seal(c.pn, &c.ad, &c.pt);
    ensure(ct == want, || format!("pn {:#x}: sealed {} expected {}", c.pn, hex(&ct[..ct.len().min(40)]), hex(&want[..want.len().min(40)])))?;
    let n = guard("get_protected_payload_len", || s.get_protected_payload_len(c.pt.len()))?;
    ensure(n == ct.len(), || format!("predicted protected length {n}, actual {}", ct.len()))?;
    let pt = lib("decrypt_payload", guard("decrypt_payload", || s.decrypt_payload(&want, Some(&c.ad), c.pn))?)?;
    ensure(pt == c.pt.0, || "unprotecting gives another payload".into())?;
    // through a connection, in every space
    let mut conn = lib("Connection::new", Connection::new(false, Version::V1, U160::zero(), 0))?;
    for i in 0..3 {
        conn.verif_set_secrets(sp(i), Some(secrets(&c.secret)?), Some(secrets(&c.secret)?));
        o.evals(2);
        let ct = lib("encrypt_local_payload", guard("encrypt_local_payload", || conn.encrypt_local_payload(sp(i), &c.pt, &c.ad, c.pn))?)?;
        ensure(ct == want, || "encrypt_local_payload differs from AES-128-GCM".into())?;
        let n = lib("len", guard("len", || conn.get_local_protected_payload_len(sp(i), c.pt.len()))?)?;
        ensure(n == want.len(), || format!("get_local_protected_payload_len = {n}, actual {}", want.len()))?;
        let pt = lib("decrypt_remote_payload", guard("decrypt_remote_payload", || conn.decrypt_remote_payload(sp(i), &want, &c.ad, c.pn))?)?;
        ensure(pt == c.pt.0, || "decrypt_remote_payload gives another payload".into())?;
    }
    Ok(())
}

fn rejected(s: &Secrets, ct: &[u8], ad: &[u8], pn: u64, what: impl FnOnce() -> String) -> Check {
    let r = guard("decrypt_payload", || s.decrypt_payload(ct, Some(ad), pn))?;
    ensure(r.is_err(), || format!("accepted with {}", what()))
}
fn check_tamper(c: &(Seal, Bytes), o: &mut Obs) -> Check {
    let (c, other) = c;
    let s = secrets(&c.secret)?;
    let k = Keys::from_secret(&c.secret);
    let ct = k.seal(c.pn, &c.ad, &c.pt);
    o.nontrivial();
    for i in 0..ct.len() * 8 {
        // every bit of short ciphertexts and of the tag, a sample of the rest
        if ct.len() > 80 && i > 128 && i + 128 < ct.len() * 8 && i % 61 != 0 {
            continue;
        }
        let mut t = ct.clone();
        t[i / 8] ^= 1 << (i % 8);
        o.evals(1);
        rejected(&s, &t, &c.ad, c.pn, || format!("bit {i} of the ciphertext flipped"))?;
    }
    for i in 0..c.ad.len() * 8 {
        if c.ad.len() > 60 && i % 37 != 0 && i + 64 < c.ad.len() * 8 {
            continue;
        }
        let mut a = c.ad.0.clone();
        a[i / 8] ^= 1 << (i % 8);
        o.evals(1);
        rejected(&s, &ct, &a, c.pn, || format!("bit {i} of the associated data flipped"))?;
    }
    for i in 0..64 {
        o.evals(1);
        rejected(&s, &ct, &c.ad, c.pn ^ (1 << i), || format!("bit {i} of the packet number flipped"))?;
    }
    for n in 0..ct.len() {
        if ct.len() > 80 && n > 40 && n + 20 < ct.len() {
            continue;
        }
        o.evals(1);
        rejected(&s, &ct[..n], &c.ad, c.pn, || format!("{n} of {} bytes", ct.len()))?;
    }
    for extra in [&[0u8][..], &[0u8; 16]] {
        rejected(&s, &[&ct[..], extra].concat(), &c.ad, c.pn, || "bytes appended".into())?;
        rejected(&s, &ct, &[&c.ad[..], extra].concat(), c.pn, || "associated data extended".into())?;
    }
    if other != &c.secret {
        rejected(&secrets(other)?, &ct, &c.ad, c.pn, || "another key".into())?;
    }
    Ok(())
}
/// changes of large ciphertexts and associated data, each alone
fn check_tamper_large(c: &(Seal, Vec<(bool, u32, u8)>), o: &mut Obs) -> Check {
    let (c, at) = c;
    let s = secrets(&c.secret)?;
    let ct = Keys::from_secret(&c.secret).seal(c.pn, &c.ad, &c.pt);
    o.nontrivial();
    o.label_if(ct.len() > 4096, "over 4096 bytes");
    let pick = |n: usize, end: bool, i: u32| if end { n - 1 - i as usize % n } else { i as usize % n };
    for (end, i, bit) in at {
        o.evals(3);
        let k = pick(ct.len(), *end, *i);
        let mut t = ct.clone();
        t[k] ^= 1 << (bit % 8);
        rejected(&s, &t, &c.ad, c.pn, || format!("byte {k} of {} of the ciphertext changed", ct.len()))?;
        rejected(&s, &ct[..k], &c.ad, c.pn, || format!("{k} of {} bytes", ct.len()))?;
        if !c.ad.is_empty() {
            let k = pick(c.ad.len(), *end, *i);
            let mut a = c.ad.0.clone();
            a[k] ^= 1 << (bit % 8);
            rejected(&s, &ct, &a, c.pn, || format!("byte {k} of {} of the associated data changed", c.ad.len()))?;
            rejected(&s, &ct, &c.ad[..k], c.pn, || format!("{k} of {} bytes of associated data", c.ad.len()))?;
        }
    }
    Ok(())
}
fn check_short(c: &(Bytes, u64, Bytes, Bytes), o: &mut Obs) -> Check {
    let (sec, pn, ad, b) = c;
    o.nontrivial_if(b.len() < 16);
    o.label_if(b.len() < 16, "shorter than a tag");
    rejected(&secrets(sec)?, b, ad, *pn, || format!("arbitrary {} bytes", b.len()))
}

/// keys, payloads and numbers that resemble each other, in any order
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mixed {
    secrets: Vec<Bytes>,
    texts: Vec<Bytes>,
    pns: Vec<u64>,
    /// (secret, payload, associated data, number, open)
    ops: Vec<(u8, u8, u8, u8, bool)>,
}
fn check_mixed(c: &Mixed, o: &mut Obs) -> Check {
    let mut ss = vec![];
    for x in &c.secrets {
        ss.push((secrets(x)?, Keys::from_secret(x)));
    }
    o.nontrivial_if(c.ops.len() > 1);
    for (n, (s, t, a, p, open)) in c.ops.iter().enumerate() {
        let at = |i: &u8, n: usize| *i as usize % n;
        let (s, k) = &ss[at(s, ss.len())];
        let (pt, ad, pn) = (&c.texts[at(t, c.texts.len())], &c.texts[at(a, c.texts.len())], c.pns[at(p, c.pns.len())]);
        let ct = k.seal(pn, ad, pt);
        o.evals(1);
        if *open {
            let got = lib("decrypt_payload", guard("decrypt_payload", || s.decrypt_payload(&ct, Some(ad), pn))?)?;
            ensure(got == pt.0, || format!("operation {n} gives another payload"))?;
            // and not under a number used before or after
            for q in &c.pns {
                if *q != pn {
                    rejected(s, &ct, ad, *q, || format!("number {q} instead of {pn}, operation {n}"))?;
                }
            }
        } else {
            let got = lib("encrypt_payload", guard("encrypt_payload", || s.encrypt_payload(pt, Some(ad), pn))?)?;
            ensure(got == ct, || format!("operation {n}, number {pn}: sealed {} expected {}", hex(&got[..got.len().min(40)]), hex(&ct[..ct.len().min(40)])))?;
        }
    }
    Ok(())
}
fn mixed() -> BoxedStrategy<Mixed> {
    use proptest::collection::vec;
    let pns = (u64s(), vec((0u32..64, any::<u8>()), 0..4)).prop_map(|(b, d)| {
        let mut v = vec![b];
        v.extend(d.into_iter().map(|(k, x)| b ^ ((x as u64).max(1) << k.min(56))));
        v
    });
    (relatives(32, 32, 1..4), relatives(0, 60, 1..4), pns, vec(any::<(u8, u8, u8, u8, bool)>(), 2..24))
        .prop_map(|(secrets, texts, pns, ops)| Mixed { secrets, texts, pns, ops })
        .boxed()
}

/// one set of keys used very often
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    secret: Bytes,
    start: u64,
    step: u32,
    n: u16,
    /// how much of the work is sealing, and how much of the rest is refused, in 1/255
    seal: u8,
    bad: u8,
}
fn check_long(c: &Long, o: &mut Obs) -> Check {
    let s = secrets(&c.secret)?;
    let k = Keys::from_secret(&c.secret);
    o.nontrivial_if(c.n > 100);
    o.label_if(c.n > 5000, "over 5000 uses");
    let mut r = c.start;
    for i in 0..c.n {
        let pn = c.start.wrapping_add(c.step as u64 * i as u64);
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = r.to_be_bytes();
        let (pt, ad) = (&x[..1 + (i as usize % 7)], &x[..i as usize % 5]);
        let mut ct = k.seal(pn, ad, pt);
        o.evals(1);
        if x[0] <= c.seal {
            let got = lib("encrypt_payload", guard("encrypt_payload", || s.encrypt_payload(pt, Some(ad), pn))?).map_err(|e| format!("use {i}: {e}"))?;
            ensure(got == ct, || format!("use {i}: sealed {} expected {}", hex(&got), hex(&ct)))?;
        } else if x[1] < c.bad {
            let at = x[2] as usize % ct.len();
            ct[at] ^= x[3].max(1);
            rejected(&s, &ct, ad, pn, || format!("a changed byte {at}, use {i}"))?;
        } else {
            let got = lib("decrypt_payload", guard("decrypt_payload", || s.decrypt_payload(&ct, Some(ad), pn))?).map_err(|e| format!("use {i}: {e}"))?;
            ensure(got == pt, || format!("use {i}: unprotecting gives another payload"))?;
        }
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("seal-open", "keys, 64-bit packet numbers, associated data and payloads up to 3000 bytes each, directly and through a connection in every space; all non-trivial", 6_000, 150_000, || bx(seals(3000)), check_seal),
        law("large", "payloads of up to 70000 bytes, now and then associated data as long, as in seal-open; all non-trivial", 40, 2_000, || bx((seals(200), huge(70_000), proptest::option::weighted(0.3, huge(70_000))).prop_map(|(s, pt, ad)| Seal { pt, ad: ad.unwrap_or(s.ad.clone()), ..s })), check_seal),
        law("tamper", "every single-bit change of ciphertext, tag, associated data and packet number, every cut, appended bytes and another key; all non-trivial", 400, 10_000, || bx((seals(200), secret())), check_tamper),
        law("tamper-large", "payloads and associated data of up to 70000 bytes, changed in one bit or cut at either end or anywhere, each change alone; all non-trivial", 60, 2_000, || {
            let at = prop_oneof![3 => (any::<bool>(), 0u32..24, any::<u8>()), 2 => (any::<bool>(), any::<u32>(), any::<u8>()), 1 => (any::<bool>(), 24u32..1500, any::<u8>())];
            bx((seals(3000), proptest::option::weighted(0.6, huge(70_000)), proptest::option::weighted(0.3, huge(70_000)), proptest::collection::vec(at, 4..16)).prop_map(|(s, pt, ad, at)| (Seal { pt: pt.unwrap_or(s.pt.clone()), ad: ad.unwrap_or(s.ad.clone()), ..s }, at)))
        }, check_tamper_large),
        law("mixed", "2 to 24 sealings and openings under similar keys, payloads, associated data and numbers, in any order; non-trivial: two or more operations", 1_500, 40_000, || bx(mixed()), check_mixed),
        law("long-lived", "100 to 20000 uses of one set of keys: sealing, opening and refusing, with rising numbers; non-trivial: over 100", 2, 80, || {
            bx((secret(), u64s(), prop_oneof![2 => Just(1u32), 1 => any::<u32>()], prop_oneof![3 => 100u16..2000, 2 => 2000u16..20_000, 1 => dict::ints(20_000).prop_map(|n| n.saturating_add(2) as u16)], any::<u8>(), any::<u8>())
                .prop_map(|(secret, start, step, n, seal, bad)| Long { secret, start, step, n, seal, bad }))
        }, check_long),
        law("unsealed", "arbitrary bytes of 0..40, mostly shorter than a tag; non-trivial: shorter than a tag", 8_000, 200_000, || bx((secret(), u64s(), content(0..20), prop_oneof![3 => content(0..18), 1 => content(0..40)])), check_short),
    ]
}
