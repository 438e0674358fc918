//! Every conforming protected packet is decoded exactly.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::model::packet::{Kind, P};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::packet::decode_next_packet;
use serde::{Deserialize, Serialize};

fn check(c: &(Conn, Pk), o: &mut Obs) -> Check {
    let (conn, pk) = c;
    label_packet(o, pk);
    o.nontrivial();
    let b = pk.seal(conn);
    o.label_if(b.len() > 1500, "over 1500 bytes");
    let cn = conn.build()?;
    same_seen(&decode_ok(&b, &cn)?, &[pk.expect()])?;
    // on its own, and decoding does not change the connection
    let mut s = Bs::new(&b);
    let p = lib("decode_next_packet", guard("decode_next_packet", || decode_next_packet(&mut s, &cn))?)?;
    o.evals(2);
    same_seen(&[see(&p)?], &[pk.expect()])
}

/// packets of several similar connections, in any order, with damaged ones between
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Talk {
    conns: Vec<Conn>,
    /// packet for which connection, and how it arrives: 0 damaged, else whole
    pks: Vec<(u8, Pk, u8)>,
    /// further arrivals of the same packets
    again: Vec<u8>,
}
fn check_talk(c: &Talk, o: &mut Obs) -> Check {
    let cns: Vec<_> = c.conns.iter().map(|x| x.build()).collect::<Result<_, _>>()?;
    let n = cns.len();
    o.nontrivial_if(c.pks.len() > 1);
    let wires: Vec<(usize, Vec<u8>)> = c.pks.iter().map(|(i, p, _)| (*i as usize % n, p.seal(&c.conns[*i as usize % n]))).collect();
    let order = (0..c.pks.len()).chain(c.again.iter().map(|k| *k as usize % c.pks.len()));
    for k in order {
        let (i, b) = &wires[k];
        let (_, pk, how) = &c.pks[k];
        crate::pause::step();
        o.evals(1);
        if how % 4 == 0 {
            o.label("damaged one first");
            let mut t = b.clone();
            let at = (*how as usize * 7) % t.len();
            t[at] ^= 1 + how / 4;
            let _ = decode(&t, &cns[*i])?;
            // and at another connection
            let _ = decode(b, &cns[(*i + 1) % n])?;
        }
        same_seen(&decode_ok(b, &cns[*i]).map_err(|e| format!("packet {k} for connection {i} of {n}: {e}"))?, &[pk.expect()])?;
    }
    Ok(())
}
fn talks() -> BoxedStrategy<Talk> {
    (relatives(0, 20, 1..4), relatives(32, 32, 3..8), vec((any::<bool>(), any::<u8>(), [largest(), largest(), largest()]), 4..5), vec((any::<u8>(), packet(kind_any(), payload_small), any::<u8>()), 2..10), vec(any::<u8>(), 0..6))
        .prop_map(|(ids, ss, hows, pks, again)| {
            let conns: Vec<Conn> = ids
                .iter()
                .zip(hows.iter().cycle())
                .enumerate()
                .map(|(i, (id, (server, k, largest)))| {
                    let s = |j: usize| ss[(i * 3 + j + *k as usize) % ss.len()].clone();
                    Conn { server: *server, cid: id.clone(), scid: None, hs: Some((s(0), s(1))), app: Some((s(2), s(3))), largest: *largest, miss: [0; 2] }
                })
                .collect();
            let pks = pks.into_iter().map(|(i, p, h)| (i, p.fix(&conns[i as usize % conns.len()]), h)).collect();
            Talk { conns, pks, again }
        })
        .boxed()
}

/// about as large as a datagram can be
pub fn large_packet() -> BoxedStrategy<(Conn, Pk)> {
    (conn_packet(kind_any, payload_small), huge(65_300), any::<u8>(), vi(), vec(0u8..4, 0..4))
        .prop_map(|((c, mut p), mut data, how, off, w)| {
            if how % 4 == 0 && p.p.kind == Kind::Initial {
                p.p.token = Bytes(data.0.split_off(data.len() / (1 + how as usize / 50)));
                p.p.token_w = p.p.token_w.max(2);
            }
            p.ws.truncate(2);
            let off = off.min(VMAX - data.len() as u64);
            let at = how as usize % (p.ws.len() + 1);
            let n = data.len();
            match how % 3 {
                0 => p.ws.splice(at..at, (0..n).map(|_| W { f: F::Padding, w: vec![], off: false, len: true })).for_each(drop),
                1 if matches!(p.p.kind, Kind::ZeroRtt | Kind::OneRtt) => p.ws.insert(at, W { f: F::Stream { id: off, off: off.min(VMAX - n as u64), fin: how > 128, data }, w, off: true, len: true }),
                _ => p.ws.insert(at, W { f: F::Crypto { off, data }, w, off: false, len: true }),
            }
            p.p.len_w = p.p.len_w.max(2);
            let p = p.fix(&c);
            (c, p)
        })
        .boxed()
}

/// every kind, packet number length and id length
fn grid(thorough: bool) -> Box<dyn Iterator<Item = (Conn, Pk)>> {
    let widths: &'static [u8] = if thorough { &[0, 1, 2, 3] } else { &[0, 3] };
    Box::new([Kind::Initial, Kind::ZeroRtt, Kind::Handshake, Kind::OneRtt].into_iter().flat_map(move |kind| {
        (1u8..=4).flat_map(move |pn_len| {
            (0usize..=20).flat_map(move |d| {
                (0usize..=20).flat_map(move |s| {
                    widths.iter().filter_map(move |w| {
                        if kind == Kind::OneRtt && (d != 8 || *w != 0) {
                            return None;
                        }
                        let conn = Conn {
                            server: s % 2 == 0,
                            cid: Bytes((0..d).map(|i| i as u8).collect()),
                            scid: None,
                            hs: Some((Bytes(vec![1; 32]), Bytes(vec![2; 32]))),
                            app: Some((Bytes(vec![3; 32]), Bytes(vec![4; 32]))),
                            largest: [[None, Some(0), Some(250), Some(70_000), Some(1 << 40)][(d + s) % 5]; 3],
                            miss: [0; 2],
                        };
                        let pk = Pk {
                            p: P {
                                kind,
                                version: 1,
                                dcid: Bytes((0..d).map(|i| 0x70 + i as u8).collect()),
                                scid: if kind == Kind::OneRtt { Bytes::default() } else { Bytes((0..s).map(|i| 0xe0 + i as u8).collect()) },
                                token: if kind == Kind::Initial { Bytes(vec![0x77; s * 4]) } else { Bytes::default() },
                                token_w: *w,
                                len_w: *w,
                                pn: (d * 37 + s * 1000 + 5) as u64,
                                pn_len,
                                spin: d % 2 == 0,
                                phase: s % 3 == 0,
                            },
                            ws: vec![W { f: F::Ping, w: vec![], off: false, len: true }; 3],
                        };
                        let pk = pk.fix(&conn);
                        Some((conn, pk))
                    })
                })
            })
        })
    }))
}

/// one connection that receives very many packets, some damaged
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    conn: Conn,
    pks: Vec<Pk>,
    n: u16,
    step: u32,
    /// how many are damaged, in 1/255
    bad: u8,
}
fn check_long(c: &Long, o: &mut Obs) -> Check {
    let cn = c.conn.build()?;
    o.nontrivial_if(c.n > 100);
    o.label_if(c.n > 1000, "over 1000 packets");
    for i in 0..c.n {
        let mut p = c.pks[i as usize % c.pks.len()].clone();
        p.p.pn = p.p.pn.wrapping_add(c.step as u64 * i as u64);
        let p = p.fix(&c.conn);
        let mut b = p.seal(&c.conn);
        o.evals(1);
        let x = (i as u32).wrapping_mul(2654435761).to_be_bytes();
        if x[1] < c.bad {
            let at = b.len() - 1 - x[2] as usize % b.len().min(20);
            b[at] ^= x[3].max(1);
            let _ = decode(&b, &cn)?;
        } else {
            same_seen(&decode_ok(&b, &cn).map_err(|e| format!("packet {i}: {e}"))?, &[p.expect()]).map_err(|e| format!("packet {i}: {e}"))?;
        }
    }
    Ok(())
}
fn longs() -> BoxedStrategy<Long> {
    (full_conn(), vec(packet(kind_any(), payload_small), 1..8), prop_oneof![3 => 100u16..1000, 1 => 1000u16..6000, 1 => dict::ints(6000).prop_map(|n| n.saturating_add(2) as u16)], prop_oneof![Just(1u32), any::<u32>()], any::<u8>())
        .prop_map(|(conn, pks, n, step, bad)| {
            let pks = pks
                .into_iter()
                .map(|mut p| {
                    p.p.token.0.truncate(20);
                    p.ws.truncate(3);
                    p
                })
                .collect();
            Long { conn, pks, n, step, bad }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("packets", "packets of every type from a reference sender: ids of 0..20 bytes, tokens, 1..4-byte packet numbers anywhere in the window of any receive position, length fields in any width, allowed frames; all non-trivial", 16_000, 500_000, || bx(conn_packet(kind_any, payload_any)), check),
        sweep("grid", "packet type x packet-number length x both id lengths x length width, enumerated; all non-trivial", grid, check),
        law("large", "packets of up to 65535 bytes, in one frame, many or the token; all non-trivial", 80, 4_000, || bx(large_packet()), check),
        law("conversations", "2 to 16 packets, damaged ones between, on 2 to 4 connections with similar ids and secrets, in any order and repeated; non-trivial: two or more packets", 2_500, 60_000, || bx(talks()), check_talk),
        law("pauses", "conversations in which a second or more passes; non-trivial: two or more packets", 1, 8, || bx(crate::pause::paused(talks())), |c, o| crate::pause::with_pause(c, o, check_talk)),
        law("long-lived", "100 to 6000 packets of any types, some damaged, on one connection; non-trivial: over 100", 4, 150, || bx(longs()), check_long),
        law("small", "the same with the smallest payloads; all non-trivial", 8_000, 200_000, || {
            bx((conn_packet(kind_any, payload_small), 1usize..4).prop_map(|((c, mut p), n)| {
                p.ws.truncate(n - 1);
                let p = p.fix(&c);
                (c, p)
            }))
        }, check),
    ]
}
