//! No input from the network can panic or stall the decoder.
use super::c05::{edits, mutate};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::Keys;
use crate::model::frame::*;
use crate::model::packet::{Kind, P};
use crate::model::varint::{enc_w, pick_width};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::frame::deserialize_frames;
use quic_sea::verif::packet::{decode_next_packet, next_header_from_stream};
#[cfg(feature = "sock")]
use quic_sea::verif::routing::Socket;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct In {
    pub conn: Conn,
    pub b: Bytes,
}

/// every entry point that sees a datagram
pub fn exercise(c: &In, o: &mut Obs) -> Check {
    let conn = c.conn.build()?;
    let h = guard("next_header_from_stream", || next_header_from_stream(&mut Bs::new(&c.b)))?;
    o.label_if(h.is_ok(), "header parses");
    o.nontrivial_if(h.is_ok());
    let r = decode(&c.b, &conn)?;
    o.label_if(r.is_ok(), "datagram decodes");
    guard("formatting decoded packets", || format!("{r:?} {h:?}").len())?;
    let r = guard("decode_next_packet", || decode_next_packet(&mut Bs::new(&c.b), &conn))?;
    o.label_if(r.is_ok(), "first packet decodes");
    let r = guard("deserialize_frames", || deserialize_frames(&mut Bs::new(&c.b)))?;
    o.label_if(r.is_ok(), "bytes decode as frames");
    o.evals(4);
    Ok(())
}
fn check(c: &In, o: &mut Obs) -> Check {
    exercise(c, o)
}

/// first bytes of every form and type
fn first_byte() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => (0u8..4, 0u8..16).prop_map(|(t, l)| 0xc0 | t << 4 | l),
        1 => (0u8..64).prop_map(|l| 0x40 | l),
        1 => any::<u8>(),
    ]
    .boxed()
}
fn claim() -> BoxedStrategy<u64> {
    prop_oneof![4 => 0u64..48, 2 => 0u64..3000, 2 => vi(), 1 => prop::sample::select(vec![VMAX, VMAX - 1, u32::MAX as u64, 1 << 31, 1 << 32, 1 << 61])].boxed()
}
/// a long header with independent length fields and contents
pub fn structured() -> BoxedStrategy<Vec<u8>> {
    (
        first_byte(),
        prop_oneof![4 => Just(1u32), 2 => Just(0u32), 1 => any::<u32>()],
        prop_oneof![3 => (0u8..21).prop_map(|n| (n, n)), 1 => any::<(u8, u8)>()],
        prop_oneof![3 => (0u8..21).prop_map(|n| (n, n)), 1 => any::<(u8, u8)>()],
        (claim(), 0u8..4, any::<bool>(), content(0..20)),
        (claim(), 0u8..4),
        prop_oneof![4 => content(0..60), 1 => content(0..1500)],
    )
        .prop_map(|(first, version, (dl, db), (sl, sb), (tl, tw, agree, token), (len, lw), rest)| {
            let mut b = vec![first];
            if first & 0x80 == 0 {
                b.extend((0..8u8).map(|i| i ^ dl));
                b.extend_from_slice(&rest);
                return b;
            }
            b.extend(version.to_be_bytes());
            b.push(dl);
            b.extend((0..db).map(|i| i.wrapping_mul(7)));
            b.push(sl);
            b.extend((0..sb).map(|i| i.wrapping_mul(11)));
            if (first >> 4) & 3 == 0 {
                let tl = if agree { token.len() as u64 } else { tl };
                b.extend(enc_w(tl, pick_width(tl, tw)));
                b.extend_from_slice(&token);
            }
            b.extend(enc_w(len, pick_width(len, lw)));
            b.extend_from_slice(&rest);
            b
        })
        .boxed()
}
/// Keys a connection would open the packet with; a missing space falls back to some other key.
fn keys_for(c: &Conn, k: Kind) -> Keys {
    c.remote_keys(space_of(k)).unwrap_or_else(|| Keys::from_secret(&[7u8; 32]))
}
fn header() -> BoxedStrategy<P> {
    packet(kind_any(), payload_small).prop_map(|p| p.p).boxed()
}
/// payloads a peer with the keys may send: valid, arbitrary, empty or mutated frames
pub fn payload() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => content(0..40).prop_map(|b| b.0),
        3 => (small_wframes(), edits()).prop_map(|(ws, e)| mutate(encode_all(&ws), &e)),
        2 => small_wframes().prop_map(|ws| encode_all(&ws)),
        2 => (0u8..0x20, vec(claim(), 0..5), 0u8..4, content(0..12)).prop_map(|(t, vs, w, tail)| {
            let mut b = vec![t];
            for v in vs {
                b.extend(enc_w(v, pick_width(v, w)));
            }
            b.extend_from_slice(&tail);
            b
        }),
    ]
    .boxed()
}
/// packets sealed with the right keys, with odd payloads and sometimes a wrong length field
pub fn sealed() -> BoxedStrategy<In> {
    sealed_n(1..4)
}
/// a receive state may also be at the last packet number there is
fn any_conn() -> BoxedStrategy<Conn> {
    (some_conn(), [0u8..8, 0u8..8, 0u8..8])
        .prop_map(|(mut c, last)| {
            for i in 0..3 {
                if last[i] == 0 {
                    c.largest[i] = Some(VMAX)
                }
            }
            c
        })
        .boxed()
}
fn sealed_n(n: std::ops::Range<usize>) -> BoxedStrategy<In> {
    (any_conn(), vec((header(), payload(), prop_oneof![5 => Just(None), 1 => claim().prop_map(Some)]), n), content(0..30), 0u8..3)
        .prop_map(|(conn, ps, tail, tails)| {
            let mut b = vec![];
            for (mut p, pl, len) in ps {
                let l = conn.largest[space_of(p.kind)];
                let tr = p.pn & ((1u64 << (8 * p.pn_len)) - 1);
                p.pn = crate::model::packet::decode_pn(l, tr, p.pn_len as usize);
                b.extend(p.seal_with(&keys_for(&conn, p.kind), &pl, len));
            }
            if tails == 0 {
                b.extend_from_slice(&tail);
            }
            In { conn, b: Bytes(b) }
        })
        .boxed()
}
/// as `sealed`, then edited
/// many coalesced packets, then padding of the datagram with one byte value
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Padded {
    c: In,
    fill: u8,
    n: u32,
}
fn check_padded(c: &Padded, o: &mut Obs) -> Check {
    let mut b = c.c.b.0.clone();
    b.extend(std::iter::repeat(c.fill).take(c.n as usize));
    o.label_if(c.n > 1500, "over 1500 bytes of filling");
    on_small_stack(|| exercise(&In { conn: c.c.conn.clone(), b: Bytes(b) }, o))
}
/// a few coalesced packets over and over, up to the largest UDP payload
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Crowded {
    pub c: In,
    pub times: u16,
}
impl Crowded {
    pub fn datagram(&self) -> In {
        let n = self.c.b.len().max(1);
        In { conn: self.c.conn.clone(), b: Bytes(self.c.b.repeat((self.times as usize).min(65_507 / n).max(1))) }
    }
}
fn check_crowded(c: &Crowded, o: &mut Obs) -> Check {
    on_small_stack(|| exercise(&c.datagram(), o))
}
pub fn crowded() -> BoxedStrategy<Crowded> {
    let least = (recv_conn(), vec(packet(kind_long(), payload_small), 1..3)).prop_map(|(conn, ps)| {
        let b: Vec<u8> = ps
            .into_iter()
            .flat_map(|mut p| {
                p.p.token.0.truncate(2);
                p.ws.truncate(1);
                p.fix(&conn).seal(&conn)
            })
            .collect();
        In { conn, b: Bytes(b) }
    });
    (prop_oneof![3 => least, 1 => valid_n(1..4), 1 => sealed_n(1..3)], prop_oneof![1 => 2u16..200, 3 => 200u16..3000])
        .prop_map(|(c, times)| Crowded { c, times })
        .boxed()
}
/// that many packets a conforming peer coalesces
fn valid_n(n: std::ops::Range<usize>) -> BoxedStrategy<In> {
    (recv_conn(), vec(packet(kind_long(), payload_small), n))
        .prop_map(|(conn, ps)| {
            let b: Vec<u8> = ps.into_iter().flat_map(|p| p.fix(&conn).seal(&conn)).collect();
            In { conn, b: Bytes(b) }
        })
        .boxed()
}
/// the start of a version negotiation, Retry or unknown-version packet, whose rest is the filling
fn negotiation() -> BoxedStrategy<In> {
    (some_conn(), 0x80u8..=0xff, prop_oneof![4 => Just(0u32), 2 => Just(1), 1 => any::<u32>()], 0usize..256, 0usize..256, any::<u8>())
        .prop_map(|(conn, first, version, d, s, x)| {
            let mut b = vec![first];
            b.extend(version.to_be_bytes());
            b.push(d as u8);
            b.extend(vec![x; d]);
            b.push(s as u8);
            b.extend(vec![!x; s]);
            In { conn, b: Bytes(b) }
        })
        .boxed()
}
fn padded() -> BoxedStrategy<Padded> {
    (prop_oneof![2 => sealed_n(0..9), 4 => valid_n(1..9), 1 => negotiation()], prop_oneof![3 => Just(0u8), 1 => Just(0xffu8), 1 => any::<u8>()], prop_oneof![3 => 0u32..60, 3 => 60u32..1500, 1 => 1500u32..65_000, 1 => dict::lens(65_000).prop_map(|n| n as u32)])
        .prop_map(|(c, fill, n)| Padded { c, fill, n })
        .boxed()
}
fn edited() -> BoxedStrategy<In> {
    (sealed(), edits()).prop_map(|(c, e)| In { conn: c.conn, b: Bytes(mutate(c.b.0, &e)) }).boxed()
}
/// packets too short for their own sample, with the sample taken from what follows
fn overlapping() -> BoxedStrategy<In> {
    (some_conn(), header(), 0u64..24, 0u8..4, content(16..60))
        .prop_map(|(conn, mut p, len, w, rest)| {
            if p.kind == Kind::OneRtt {
                p.kind = Kind::Handshake
            }
            let mut b = p.id_part();
            if p.kind == Kind::Initial {
                b.extend(enc_w(p.token.len() as u64, pick_width(p.token.len() as u64, p.token_w)));
                b.extend_from_slice(&p.token);
            }
            b.extend(enc_w(len, pick_width(len, w)));
            b.extend_from_slice(&rest);
            In { conn, b: Bytes(b) }
        })
        .boxed()
}

fn check_prefixes(c: &(Conn, Pk, bool), o: &mut Obs) -> Check {
    let (conn, pk, double) = c;
    let mut b = pk.seal(conn);
    if *double && pk.p.kind != Kind::OneRtt {
        b.extend(b.clone());
    }
    label_packet(o, pk);
    o.nontrivial();
    let cn = conn.build()?;
    for i in 0..b.len() {
        o.evals(1);
        guard("next_header_from_stream", || next_header_from_stream(&mut Bs::new(&b[..i])).is_ok())?;
        let _ = decode(&b[..i], &cn).map_err(|e| format!("{e} (datagram cut to {i} of {} bytes)", b.len()))?;
        // an error from the underlying stream at that point
        guard("decode_packets", || quic_sea::verif::packet::decode_packets(&mut Bs::with_error(&b, i), &cn).is_ok())?;
    }
    Ok(())
}

#[cfg(feature = "sock")]
fn check_socket(c: &In, o: &mut Obs) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    // registered under the id the datagram names, when it names one
    let named = if c.b.first().map_or(false, |f| f & 0x80 != 0) { c.b.get(6..14) } else { c.b.get(1..9) };
    let id = named.map(|x| u64::from_be_bytes(x.try_into().unwrap())).unwrap_or(0);
    for (k, i) in [(0u64, id), (1, 0), (2, id.wrapping_add(1))] {
        if k == 0 || i != id {
            s.insert(i, c.conn.build()?);
        }
    }
    s.set_log(c.b.len() % 2 == 0);
    let r = guard("route_datagram", || s.route(&c.b))?;
    o.label_if(r.is_ok(), "routed");
    let r2 = guard("packets_from_datagram", || s.packets(&c.b))?;
    o.label_if(r2.is_ok(), "decoded by the socket");
    o.nontrivial_if(r.is_ok());
    Ok(())
}

/// every first byte with every pair of id lengths around the limits
fn check_first(c: &(u8, u8, u8, u32), o: &mut Obs) -> Check {
    let (first, dl, sl, version) = *c;
    let mut b = vec![first];
    b.extend(version.to_be_bytes());
    b.push(dl);
    b.extend((0..dl).map(|i| i ^ 0x5a));
    b.push(sl);
    b.extend((0..sl).map(|i| i ^ 0xa5));
    b.extend([0u8; 3]);
    b.extend((0..48u8).map(|i| i.wrapping_mul(first)));
    let conn = Conn {
        server: true,
        cid: Bytes((0..dl.min(20)).map(|i| i ^ 0x5a).collect()),
        scid: None,
        hs: Some((Bytes(vec![1; 32]), Bytes(vec![2; 32]))),
        app: Some((Bytes(vec![3; 32]), Bytes(vec![4; 32]))),
        largest: [None, Some(3), Some(VMAX - 1)],
        miss: [0; 2],
    };
    exercise(&In { conn: conn.clone(), b: Bytes(b.clone()) }, o)?;
    // the same with the token / packet length saying 0, 1, ...
    for v in 0..22u8 {
        let at = 7 + dl as usize + sl as usize;
        b[at] = v;
        exercise(&In { conn: conn.clone(), b: Bytes(b.clone()) }, o)?;
    }
    Ok(())
}

pub fn datagram() -> BoxedStrategy<In> {
    prop_oneof![
        2 => (some_conn(), content(0..80)).prop_map(|(conn, b)| In { conn, b }),
        4 => (some_conn(), vec(structured(), 1..3)).prop_map(|(conn, v)| In { conn, b: Bytes(v.concat()) }),
        4 => sealed(),
        3 => edited(),
        3 => overlapping(),
    ]
    .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("datagrams", "arbitrary bytes, long headers with contradictory length fields, packets sealed with the right keys around arbitrary, empty or damaged payloads, edited packets and packets shorter than their sample, on connections in any role with keys in any subset of spaces; non-trivial: the first header parses", 60_000, 2_500_000, || bx(datagram()), check),
        law("padded", "0 to 8 coalesced packets, valid or odd, or the start of a version negotiation, followed by up to 65000 bytes of one value; non-trivial: the first header parses", 3_000, 60_000, || bx(padded()), check_padded),
        law("crowded", "a few packets over and over in a datagram of up to 65507 bytes, on a thread with a stack of 512 KiB; non-trivial: the first header parses", 60, 2_000, || bx(crowded()), check_crowded),
        law("prefixes", "valid packets of every type, alone or doubled, cut and failed at every byte; all non-trivial", 1_200, 30_000, || bx((conn_packet(kind_any, payload_small), any::<bool>()).prop_map(|((c, p), d)| (c, p, d))), check_prefixes),
        law("frame-payloads", "frame payloads with arbitrary claims, through a sealed packet and directly; non-trivial: the header parses", 30_000, 1_000_000, || {
            bx((full_conn(), header(), payload()).prop_map(|(conn, mut p, pl)| {
                let l = conn.largest[space_of(p.kind)];
                p.pn = crate::model::packet::decode_pn(l, p.pn & ((1u64 << (8 * p.pn_len)) - 1), p.pn_len as usize);
                let b = p.seal_with(&keys_for(&conn, p.kind), &pl, None);
                In { conn, b: Bytes(b) }
            }))
        }, check),
        #[cfg(feature = "sock")]
        law("socket", "the same datagrams routed and decoded by a socket that has a connection under the id they name; non-trivial: routed", 8_000, 200_000, || bx(datagram()), check_socket),
        sweep("first-bytes", "every first byte with id lengths around the limits and every small length field, enumerated; non-trivial: the header parses", |t| {
            Box::new((0..=255u8).flat_map(move |f| {
                let ls: &'static [u8] = if t { &[0, 1, 7, 8, 9, 19, 20, 21, 22, 63, 64, 127, 128, 254, 255] } else { &[0, 8, 20, 21, 255] };
                ls.iter().flat_map(move |d| [0u8, 8, 20, 21].into_iter().flat_map(move |s| [0u32, 1].into_iter().map(move |v| (f, *d, s, v))))
            }))
        }, check_first),
    ]
}
