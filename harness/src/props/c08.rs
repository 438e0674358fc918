//! Initial and derived keys.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::*;
use crate::streams::Bs;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::quictls::{hkdf_expand_label_sha256, hkdf_extract_sha256, Secrets, TLS13_AES_128_GCM_SHA256};
use quic_sea::verif::version::Version;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Probe {
    pn: u64,
    ad: Bytes,
    pt: Bytes,
    sample: Bytes,
}
fn probe() -> BoxedStrategy<Probe> {
    (vi(), prop_oneof![30 => content(0..30), 1 => dict_len(300)], prop_oneof![30 => content(0..40), 1 => dict_len(300)], content(16..20)).prop_map(|(pn, ad, pt, sample)| Probe { pn, ad, pt, sample }).boxed()
}
/// the three derived values are the model's: key and iv through a sealed payload, hp through a mask
fn uses(what: &str, s: &Secrets, k: &Keys, p: &Probe) -> Check {
    let ct = lib(what, guard("encrypt_payload", || s.encrypt_payload(&p.pt, Some(&p.ad), p.pn))?)?;
    ensure(ct == k.seal(p.pn, &p.ad, &p.pt), || format!("{what}: ciphertext differs, so the key or iv is not the derived one"))?;
    let back = lib(what, guard("decrypt_payload", || s.decrypt_payload(&ct, Some(&p.ad), p.pn))?)?;
    ensure(back == p.pt.0, || format!("{what}: does not open what it sealed"))?;
    let m = lib(what, guard("mask", || s.get_header_protection_mask(&mut Bs::new(&p.sample)))?)?;
    ensure(m == k.mask(&p.sample[..16]), || format!("{what}: mask differs, so the header-protection key is not the derived one"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ini {
    cid: Bytes,
    probe: Probe,
}
fn check_initial(c: &Ini, o: &mut Obs) -> Check {
    o.nontrivial_if(!c.cid.is_empty());
    o.label_if(c.cid.is_empty(), "empty id");
    o.label_if(c.cid.len() == 20, "20-byte id");
    o.label_if(c.cid.len() == 8, "8-byte id");
    for server in [false, true] {
        let s = lib("Secrets::from_initial", guard("from_initial", || Secrets::from_initial(server, &c.cid, &Version::V1))?)?;
        uses(if server { "server Initial keys" } else { "client Initial keys" }, &s, &Keys::initial(server, &c.cid), &c.probe)?;
    }
    // the two ends of a connection
    let mk = |server| -> Result<Connection, String> {
        lib("Connection::new", guard("Connection::new", || Connection::new(server, Version::V1, u160(&c.cid).unwrap(), c.cid.len()))?)
    };
    let (cl, sv) = (mk(false)?, mk(true)?);
    let p = &c.probe;
    for (from, to, server) in [(&cl, &sv, false), (&sv, &cl, true)] {
        o.evals(4);
        let k = Keys::initial(server, &c.cid);
        let who = if server { "server" } else { "client" };
        let ct = lib(who, guard("encrypt_local_payload", || from.encrypt_local_payload(sp(INITIAL), &p.pt, &p.ad, p.pn))?)?;
        ensure(ct == k.seal(p.pn, &p.ad, &p.pt), || format!("{who} does not send with its RFC 9001 Initial keys"))?;
        let pt = lib(who, guard("decrypt_remote_payload", || to.decrypt_remote_payload(sp(INITIAL), &ct, &p.ad, p.pn))?)?;
        ensure(pt == p.pt.0, || format!("the peer of the {who} does not recover the payload"))?;
        let r = guard("decrypt_remote_payload", || from.decrypt_remote_payload(sp(INITIAL), &ct, &p.ad, p.pn))?;
        ensure(r.is_err(), || format!("{who} opens its own packets: the directions share keys"))?;
        let m = k.mask(&p.sample[..16]);
        let a = lib(who, guard("get_local_hp_mask", || from.get_local_hp_mask(sp(INITIAL), &mut Bs::new(&p.sample)))?)?;
        let b = lib(who, guard("get_remote_hp_mask", || to.get_remote_hp_mask(sp(INITIAL), &mut Bs::new(&p.sample)))?)?;
        ensure(a == m && b == m, || format!("{who} header-protection mask {a:02x?} / {b:02x?}, RFC 9001 {m:02x?}"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sec {
    secret: Bytes,
    probe: Probe,
}
fn check_secret(c: &Sec, o: &mut Obs) -> Check {
    o.nontrivial();
    let s = lib("Secrets::from_secret", guard("from_secret", || Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, &c.secret))?)?;
    uses("keys from a traffic secret", &s, &Keys::from_secret(&c.secret), &c.probe)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hk {
    salt: Option<Bytes>,
    ikm: Bytes,
    secret: Bytes,
    label: Bytes,
    ctx: Bytes,
    out: usize,
}
fn check_hkdf(c: &Hk, o: &mut Obs) -> Check {
    o.evals(2);
    let x = guard("hkdf_extract_sha256", || hkdf_extract_sha256(c.salt.as_ref().map(|s| &s[..]), &c.ikm))?;
    let want = extract(c.salt.as_ref().map(|s| &s[..]), &c.ikm);
    ensure(x == want, || format!("HKDF-Extract(salt {:?}, {:?}) = {}, RFC 5869 {}", c.salt, c.ikm, hex(&x), hex(&want)))?;
    let mut buf = vec![0xeeu8; c.out];
    let r = guard("hkdf_expand_label_sha256", || hkdf_expand_label_sha256(&c.secret, &c.label, &c.ctx, &mut buf))?;
    let bad = c.label.len() + 6 > 255 || c.ctx.len() > 255 || c.out > 255 * 32;
    if bad {
        o.label("unrepresentable");
        o.nontrivial();
        return ensure(r.is_err(), || format!("label {} bytes, context {} bytes, output {} bytes accepted", c.label.len(), c.ctx.len(), c.out));
    }
    if c.secret.len() < 32 && r.is_err() {
        o.label("short secret refused");
        return Ok(());
    }
    lib("hkdf_expand_label_sha256", r)?;
    o.label("expanded");
    o.nontrivial_if(c.out > 0);
    let want = expand_label(&c.secret, &c.label, &c.ctx, c.out);
    ensure(buf == want, || format!("HKDF-Expand-Label({:?}, {:?}, {:?}, {}) = {}, RFC 8446 {}", c.secret, c.label, c.ctx, c.out, hex(&buf), hex(&want)))
}

/// many derivations side by side: each gives what it gives alone, while it lives and when repeated
fn check_family(c: &(Vec<Bytes>, Vec<Bytes>, Probe), o: &mut Obs) -> Check {
    let (ids, secrets, p) = c;
    o.nontrivial_if(ids.len() + secrets.len() > 2);
    let mut live: Vec<(String, Secrets, Keys)> = vec![];
    let mut conns: Vec<(Connection, bool, &Bytes)> = vec![];
    for round in 0..2 {
        for (i, id) in ids.iter().enumerate() {
            let server = (i + round) % 2 == 0;
            let s = lib("Secrets::from_initial", guard("from_initial", || Secrets::from_initial(server, id, &Version::V1))?)?;
            live.push((format!("Initial keys of {id:?}, derived {}th", live.len()), s, Keys::initial(server, id)));
            conns.push((lib("Connection::new", guard("Connection::new", || Connection::new(server, Version::V1, u160(id).unwrap(), id.len()))?)?, server, id));
            if let Some(x) = secrets.get(i) {
                let s = lib("Secrets::from_secret", guard("from_secret", || Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, x))?)?;
                live.push((format!("keys of the secret {x:?}, derived {}th", live.len()), s, Keys::from_secret(x)));
            }
        }
    }
    for (what, s, k) in &live {
        o.evals(1);
        uses(what, s, k, p)?;
    }
    for (conn, server, id) in &conns {
        o.evals(2);
        for (own, server) in [(true, *server), (false, !*server)] {
            let k = Keys::initial(server, id);
            let m = k.mask(&p.sample[..16]);
            let ct = k.seal(p.pn, &p.ad, &p.pt);
            let mut st = Bs::new(&p.sample);
            let got = if own { guard("get_local_hp_mask", || conn.get_local_hp_mask(sp(INITIAL), &mut st))? } else { guard("get_remote_hp_mask", || conn.get_remote_hp_mask(sp(INITIAL), &mut st))? };
            ensure(lib("mask", got)? == m, || format!("mask of a connection to {id:?}, among others, is not the one it has alone"))?;
            let ok = if own {
                lib("encrypt_local_payload", guard("encrypt_local_payload", || conn.encrypt_local_payload(sp(INITIAL), &p.pt, &p.ad, p.pn))?)? == ct
            } else {
                lib("decrypt_remote_payload", guard("decrypt_remote_payload", || conn.decrypt_remote_payload(sp(INITIAL), &ct, &p.ad, p.pn))?)? == p.pt.0
            };
            ensure(ok, || format!("a connection to {id:?}, among others, does not use the keys it has alone"))?;
        }
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("initial", "connection ids of 0..20 bytes, both roles, both ends; non-trivial: the id is not empty", 5_000, 150_000, || bx((any_cid(), probe()).prop_map(|(cid, probe)| Ini { cid, probe })), check_initial),
        sweep("every-id-length", "ids of every length 0..20 with boundary contents, enumerated; non-trivial: not empty", |_| {
            Box::new((0usize..=20).flat_map(|n| {
                (0u8..8).map(move |k| Ini {
                    cid: Bytes((0..n).map(|i| match k { 0 => 0, 1 => 0xff, 2 => (i == 0) as u8, 3 => (i + 1 == n) as u8, 4 => 0x80, 5 => i as u8, 6 => 0xf0u8.wrapping_add(i as u8), _ => if i == 0 { 0 } else { 0xaa } }).collect()),
                    probe: Probe { pn: n as u64 * 1000 + k as u64, ad: Bytes(vec![k; n]), pt: Bytes(vec![n as u8; 3]), sample: Bytes(vec![k; 16]) },
                })
            }))
        }, check_initial),
        law("families", "2..12 similar ids and secrets (one byte changed, cut, extended, reversed), all derived twice and used side by side; non-trivial: more than two", 700, 20_000, || bx((relatives(0, 20, 1..12), relatives(32, 32, 1..12), probe())), check_family),
        law("traffic-secrets", "32-byte (and some longer) traffic secrets; all non-trivial", 6_000, 200_000, || bx((prop_oneof![4 => secret(), 1 => content(32..70)], probe()).prop_map(|(secret, probe)| Sec { secret, probe })), check_secret),
        law("hkdf", "salts, secrets, labels, contexts and output lengths around every limit; non-trivial: something is expanded or refused", 8_000, 200_000, || {
            bx((
                proptest::option::of(prop_oneof![20 => content(0..100), 1 => dict_len(500)]),
                prop_oneof![20 => content(0..100), 1 => dict_len(500)],
                prop_oneof![10 => content(0..40), 60 => content(32..100), 2 => dict_len(500)],
                prop_oneof![40 => content(0..30), 20 => content(244..256), 10 => content(0..300), 10 => dict::words().prop_map(|w| Bytes(w.into_bytes())), dict::weight() => dict_len(300)],
                prop_oneof![40 => content(0..30), 20 => content(250..260), 10 => content(0..400), dict::weight() => dict_len(400)],
                prop_oneof![4 => 0usize..100, 1 => dict::lens(70_000), 2 => 8150usize..8170, 1 => 0usize..9000, 1 => prop::sample::select(vec![255usize, 256, 257, 65535, 65536, 65552, 70000])],
            )
                .prop_map(|(salt, ikm, secret, label, ctx, out)| Hk { salt, ikm, secret, label, ctx, out }))
        }, check_hkdf),
    ]
}
