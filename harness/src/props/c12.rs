//! A modified or misdirected protected packet is never accepted.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::Keys;
use crate::model::packet::{decode_pn, Kind};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::packet::{decode_next_packet, view};
use serde::{Deserialize, Serialize};

/// no protected packet may come out of `b`
fn none_from(b: &[u8], c: &Connection, what: impl Fn() -> String) -> Check {
    let mut s = Bs::new(b);
    let one = guard("decode_next_packet", || decode_next_packet(&mut s, c))?;
    let all = decode(b, c)?;
    for p in one.iter().chain(all.iter().flatten()) {
        let v = guard("view", || view(p))?;
        if v.packet_number.is_some() || v.frames.is_some() {
            return Err(format!("{}: still accepted as {:?} packet {:?}", what(), v.packet_type, v.packet_number));
        }
    }
    Ok(())
}
/// the unmodified packet must be accepted, or the law would be empty
fn genuine(b: &[u8], c: &Connection, pk: &Pk) -> Check {
    same_seen(&decode_ok(b, c)?, &[pk.expect()])
}

fn check_bits(c: &(Conn, Pk), o: &mut Obs) -> Check {
    let (conn, pk) = c;
    label_packet(o, pk);
    o.nontrivial();
    let b = pk.seal(conn);
    let cn = conn.build()?;
    genuine(&b, &cn, pk)?;
    for i in 0..b.len() * 8 {
        let mut t = b.clone();
        t[i / 8] ^= 1 << (i % 8);
        o.evals(1);
        none_from(&t, &cn, || format!("bit {} of byte {} of {} flipped", i % 8, i / 8, b.len()))?;
    }
    for n in 0..b.len() {
        o.evals(1);
        none_from(&b[..n], &cn, || format!("cut to {n} of {} bytes", b.len()))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Edit {
    conn: Conn,
    pk: Pk,
    sub: Vec<(u32, u8)>,
    cut: Option<u32>,
}
fn check_edits(c: &Edit, o: &mut Obs) -> Check {
    let b = c.pk.seal(&c.conn);
    let mut t = b.clone();
    for (at, v) in &c.sub {
        let i = *at as usize % t.len();
        t[i] = *v;
    }
    if let Some(n) = c.cut {
        let n = n as usize % b.len();
        t.truncate(n);
    }
    if t == b {
        return Ok(());
    }
    label_packet(o, &c.pk);
    o.nontrivial();
    let cn = c.conn.build()?;
    none_from(&t, &cn, || format!("bytes replaced: {}", c.sub.len()))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Wrong {
    /// another connection: other id and secrets
    Other(Conn),
    /// the sender's own keys
    Reflected,
    /// keys of another packet number space
    Space(u8),
    /// no keys for the space
    NoKeys,
    /// a receive position that maps the packet to another number
    Position(u64),
}
fn check_wrong(c: &(Conn, Pk, Wrong), o: &mut Obs) -> Check {
    let (conn, pk, wrong) = c;
    let b = pk.seal(conn);
    let space = space_of(pk.p.kind);
    label_packet(o, pk);
    genuine(&b, &conn.build()?, pk)?;
    let flip = |s: &Option<(Bytes, Bytes)>| s.clone().map(|(l, r)| (r, l));
    let (other, what) = match wrong {
        Wrong::Other(x) => {
            o.label("another connection");
            let mut x = x.clone();
            x.largest = conn.largest;
            (x, "another connection's keys")
        }
        Wrong::Reflected => {
            o.label("opposite direction");
            (Conn { server: !conn.server, hs: flip(&conn.hs), app: flip(&conn.app), ..conn.clone() }, "the keys of the opposite direction")
        }
        Wrong::Space(k) => {
            o.label("another space");
            // seal with the keys of one space, send as a packet of another
            let from = (space + 1 + (*k as usize % 2)) % 3;
            let b = pk.p.seal(&conn.remote_keys(from).unwrap(), &pk.payload());
            o.nontrivial();
            return none_from(&b, &conn.build()?, || "sealed with the keys of another space".into());
        }
        Wrong::NoKeys => {
            o.label("no keys");
            let mut cn = conn.build()?;
            cn.verif_set_secrets(sp(space), None, None);
            o.nontrivial();
            return none_from(&b, &cn, || "no keys for the space".into());
        }
        Wrong::Position(l) => {
            let mut x = conn.clone();
            x.largest[space] = Some(*l);
            let tr = pk.p.pn & ((1u64 << (8 * pk.p.pn_len)) - 1);
            if decode_pn(Some(*l), tr, pk.p.pn_len as usize) == pk.p.pn {
                o.label("same position");
                return Ok(());
            }
            o.label("another position");
            (x, "another receive position")
        }
    };
    let keys_differ = matches!(wrong, Wrong::Position(_)) || other.remote_keys(space) != conn.remote_keys(space);
    if !keys_differ {
        return Ok(());
    }
    o.nontrivial();
    none_from(&b, &other.build()?, || what.into())
}
fn wrong() -> BoxedStrategy<Wrong> {
    prop_oneof![
        2 => full_conn().prop_map(Wrong::Other),
        2 => Just(Wrong::Reflected),
        2 => (0u8..2).prop_map(Wrong::Space),
        1 => Just(Wrong::NoKeys),
        3 => vi().prop_map(|v| Wrong::Position(v.min(VMAX - 1))),
    ]
    .boxed()
}
/// right header protection key, payload sealed with something else
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Mix {
    /// payload key and IV of the receiver's own sending direction
    Local,
    /// ... of another space
    Space(u8),
    /// ... of another secret
    Secret(Bytes),
    /// only the key, or only the IV, of another secret
    KeyOnly(Bytes),
    IvOnly(Bytes),
    /// all of one byte value
    Constant(u8),
    /// the nonce without the packet number, or of another one
    Number(u64),
    /// a length field that claims more or fewer bytes than there are, authenticated as such
    Length(u64),
    /// the first byte, ids, token or length left out of what is authenticated
    Unauthenticated(u8),
}
fn check_mixed(c: &(Conn, Pk, Mix), o: &mut Obs) -> Check {
    let (conn, pk, mix) = c;
    let space = space_of(pk.p.kind);
    let right = conn.remote_keys(space).expect("keys");
    let cn = conn.build()?;
    label_packet(o, pk);
    genuine(&pk.seal(conn), &cn, pk)?;
    let payload = pk.payload();
    let mut k = right.clone();
    let mut take = |x: &Keys, key: bool, iv: bool| {
        if key {
            k.key = x.key.clone()
        }
        if iv {
            k.iv = x.iv.clone()
        }
    };
    let what = match mix {
        Mix::Local => {
            let x = Conn { miss: [0; 2], ..conn.clone() }.local_keys(space).unwrap();
            take(&x, true, true);
            "payload sealed with the opposite direction's keys"
        }
        Mix::Space(n) => {
            let x = conn.remote_keys((space + 1 + (*n as usize % 2)) % 3).unwrap();
            take(&x, true, true);
            "payload sealed with another space's keys"
        }
        Mix::Secret(s) => {
            take(&Keys::from_secret(s), true, true);
            "payload sealed with foreign keys"
        }
        Mix::KeyOnly(s) => {
            take(&Keys::from_secret(s), true, false);
            "payload sealed with a foreign key under the right IV"
        }
        Mix::IvOnly(s) => {
            take(&Keys::from_secret(s), false, true);
            "payload sealed with the right key under a foreign IV"
        }
        Mix::Constant(b) => {
            take(&Keys { key: vec![*b; 16], iv: vec![*b; 12], hp: vec![] }, true, true);
            "payload sealed with a constant key"
        }
        Mix::Number(x) => {
            // the nonce of another number
            let mut iv = k.iv.clone();
            for (i, b) in x.to_be_bytes().iter().enumerate() {
                iv[4 + i] ^= b;
            }
            k.iv = iv;
            "payload sealed under the nonce of another packet number"
        }
        Mix::Length(n) => {
            let actual = pk.p.pn_len as u64 + payload.len() as u64 + 16;
            if pk.p.kind == Kind::OneRtt || *n == actual {
                return Ok(());
            }
            o.label("length field");
            o.nontrivial();
            let b = pk.p.seal_with(&right, &payload, Some(*n));
            return none_from(&b, &cn, || format!("the length field says {n}, {actual} bytes are there"));
        }
        Mix::Unauthenticated(n) => {
            o.label("header not authenticated");
            o.nontrivial();
            let b = pk.p.seal_partial(&right, &payload, *n);
            return none_from(&b, &cn, || format!("only part {n} of the header was authenticated"));
        }
    };
    if k == right {
        return Ok(());
    }
    o.label("payload keys");
    o.nontrivial();
    none_from(&pk.p.seal(&k, &payload), &cn, || what.into())
}
fn mixes() -> BoxedStrategy<Mix> {
    prop_oneof![
        2 => Just(Mix::Local),
        2 => (0u8..2).prop_map(Mix::Space),
        1 => secret().prop_map(Mix::Secret),
        1 => secret().prop_map(Mix::KeyOnly),
        1 => secret().prop_map(Mix::IvOnly),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Mix::Constant),
        2 => u64s().prop_map(Mix::Number),
        2 => prop_oneof![0u64..64, 0u64..2000, vi()].prop_map(Mix::Length),
        2 => (0u8..5).prop_map(Mix::Unauthenticated),
    ]
    .boxed()
}
/// a field of the header replaced as a whole, the rest kept
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Swap {
    Version(u32),
    Dcid(u8, Bytes),
    Scid(u8, Bytes),
    SwapIds,
    Token(u8, Bytes),
    TokenWidth(u8),
    LengthWidth(u8),
    Type(u8),
    Fixed,
}
fn other_bytes(old: &Bytes, how: u8, new: &Bytes) -> Bytes {
    Bytes(match how % 8 {
        0 => new.0.clone(),
        1 => [&[0u8][..], old].concat(),
        2 => [old, &[0u8][..]].concat(),
        3 => old.iter().copied().skip_while(|b| *b == 0).collect(),
        4 => old.get(1..).unwrap_or(&[]).to_vec(),
        5 => old[..old.len().saturating_sub(1)].to_vec(),
        6 => old.iter().rev().copied().collect(),
        _ => vec![],
    })
}
fn check_swap(c: &(Conn, Pk, Swap), o: &mut Obs) -> Check {
    let (conn, pk, swap) = c;
    let b = pk.seal(conn);
    let mut p = pk.p.clone();
    let (mut first, mut named) = (0u8, "");
    match swap {
        Swap::Version(v) => {
            p.version = *v;
            named = "version"
        }
        Swap::Dcid(h, x) => p.dcid = other_bytes(&p.dcid, *h, x),
        Swap::Scid(h, x) => p.scid = other_bytes(&p.scid, *h, x),
        Swap::SwapIds => std::mem::swap(&mut p.dcid, &mut p.scid),
        Swap::Token(h, x) => p.token = other_bytes(&p.token, *h, x),
        Swap::TokenWidth(w) => p.token_w = *w,
        Swap::LengthWidth(w) => p.len_w = *w,
        Swap::Type(t) => first = (t % 4) << 4,
        Swap::Fixed => first = 0x40,
    }
    let at = b.len() - (p.pn_len as usize + pk.payload().len() + 16);
    let mut t = p.id_part();
    let low = if p.kind == Kind::OneRtt { 0x1f } else { 0x0f };
    t[0] = (t[0] & !low | b[0] & low) ^ if p.kind == Kind::OneRtt { first & 0x40 } else { first };
    if p.kind == Kind::Initial {
        let n = p.token.len() as u64;
        t.extend(crate::model::varint::enc_w(n, crate::model::varint::pick_width(n, p.token_w)));
        t.extend_from_slice(&p.token);
    }
    if p.kind != Kind::OneRtt {
        let n = (b.len() - at) as u64;
        t.extend(crate::model::varint::enc_w(n, crate::model::varint::pick_width(n, p.len_w)));
    }
    t.extend_from_slice(&b[at..]);
    if t == b {
        return Ok(());
    }
    label_packet(o, pk);
    o.label_if(named == "version", "another version");
    o.nontrivial();
    let cn = conn.build()?;
    genuine(&b, &cn, pk)?;
    none_from(&t, &cn, || format!("{swap:?} in the header"))
}
fn swaps() -> BoxedStrategy<Swap> {
    let versions = prop_oneof![
        2 => prop::sample::select(vec![0u32, 1, 2, 0x6b33_43cf, 0x709a_50c4, 0xff00_001d, 0xff00_0020, 0xff00_0022, 0x0a0a_0a0a, 0x1a2a_3a4a, 0xfafa_fafa, u32::MAX, 0x0100_0000, 0x5130_3530]),
        1 => (any::<u32>()).prop_map(|v| v & 0xf0f0_f0f0 | 0x0a0a_0a0a),
        1 => (0u32..256).prop_map(|v| 0xff00_0000 | v),
        1 => 0u32..20,
        1 => crate::dict::ints(u32::MAX as u64).prop_map(|v| v as u32),
        1 => any::<u32>(),
    ];
    prop_oneof![
        4 => versions.prop_map(Swap::Version),
        2 => (0u8..8, any_cid()).prop_map(|(h, b)| Swap::Dcid(h, b)),
        2 => (0u8..8, any_cid()).prop_map(|(h, b)| Swap::Scid(h, b)),
        1 => Just(Swap::SwapIds),
        2 => (0u8..8, content(0..40)).prop_map(|(h, b)| Swap::Token(h, b)),
        1 => (0u8..4).prop_map(Swap::TokenWidth),
        1 => (0u8..4).prop_map(Swap::LengthWidth),
        1 => (1u8..4).prop_map(Swap::Type),
        1 => Just(Swap::Fixed),
    ]
    .boxed()
}
/// as a one-bit different connection id
fn check_near_id(c: &(Conn, Pk, u8), o: &mut Obs) -> Check {
    let (conn, pk, bit) = c;
    let b = pk.seal(conn);
    genuine(&b, &conn.build()?, pk)?;
    let mut cid = conn.cid.0.clone();
    if cid.is_empty() {
        cid.push(0);
    } else {
        let i = *bit as usize % (cid.len() * 8);
        cid[i / 8] ^= 1 << (i % 8);
    }
    o.nontrivial();
    let x = Conn { cid: Bytes(cid), ..conn.clone() };
    none_from(&b, &x.build()?, || "keys from a connection id that differs in one bit".into())?;
    // the same id with a zero byte in front, or without its first byte
    let mut longer = vec![0u8];
    longer.extend_from_slice(&conn.cid);
    for cid in [longer, conn.cid.get(1..).unwrap_or(&[1]).to_vec()] {
        if cid.len() <= 20 && cid != conn.cid.0 {
            o.evals(1);
            let x = Conn { cid: Bytes(cid), ..conn.clone() };
            none_from(&b, &x.build()?, || "keys from a connection id of another length".into())?;
        }
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("bit-flips", "small packets of every type with every single bit flipped and cut at every byte; all non-trivial", 260, 6_000, || {
            bx(conn_packet(kind_any, payload_small).prop_map(|(c, mut p)| {
                if p.p.token.len() > 40 {
                    p.p.token.0.truncate(40)
                }
                p.ws.truncate(2);
                let p = p.fix(&c);
                (c, p)
            }))
        }, check_bits),
        law("edits", "packets of any size with bytes replaced anywhere, or cut; non-trivial: the bytes differ", 12_000, 300_000, || {
            bx((conn_packet(kind_any, payload_any), vec((prop_oneof![1 => 0u32..60, 1 => any::<u32>()], any::<u8>()), 1..5), proptest::option::weighted(0.2, any::<u32>()))
                .prop_map(|((conn, pk), sub, cut)| Edit { conn, pk, sub, cut }))
        }, check_edits),
        law("wrong-keys", "unmodified packets decoded with another connection's keys, the opposite direction's, another space's, none, or at another receive position; non-trivial: the keys or the number differ", 10_000, 250_000, || bx((conn_packet(kind_any, payload_small), wrong()).prop_map(|((c, p), w)| (c, p, w))), check_wrong),
        law("mixed", "packets with the right header protection whose payload is sealed with the keys of another direction, space or secret, under another nonce, around a length field that does not match, or with part of the header left unauthenticated; non-trivial: something differs", 10_000, 250_000, || {
            bx((conn_packet(kind_any, payload_small), mixes()).prop_flat_map(|((c, p), m)| {
                // lengths close to the true one as well
                let actual = p.p.pn_len as u64 + p.payload().len() as u64 + 16;
                let m2 = m.clone();
                let m = match m {
                    Mix::Length(_) => prop_oneof![1 => Just(m2), 1 => (-20i64..20).prop_map(move |d| Mix::Length((actual as i64 + d).max(0) as u64)),
                        1 => (6u32..62).prop_map(move |k| Mix::Length((actual + (1 << k)).min(VMAX)))].boxed(),
                    m => Just(m).boxed(),
                };
                (Just(c), Just(p), m)
            }))
        }, check_mixed),
        law("fields", "packets with the version, an id, the token, the type or the width of a length replaced in the header; non-trivial: the bytes differ", 10_000, 250_000, || bx((conn_packet(kind_any, payload_small), swaps()).prop_map(|((c, p), s)| (c, p, s))), check_swap),
        law("near-ids", "Initial packets decoded with keys of an id that differs in one bit or only in length; all non-trivial", 3_000, 60_000, || bx((conn_packet(|| bx(Just(Kind::Initial)), payload_small), any::<u8>()).prop_map(|((c, p), b)| (c, p, b))), check_near_id),
    ]
}
