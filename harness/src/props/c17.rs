//! Coalesced packets in a datagram all decode, in order.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::packet::Kind;
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::packet::decode_next_packet;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Datagram {
    conn: Conn,
    packets: Vec<Pk>,
}
fn check(c: &Datagram, o: &mut Obs) -> Check {
    let conn = c.conn.build()?;
    let parts: Vec<Vec<u8>> = c.packets.iter().map(|p| p.seal(&c.conn)).collect();
    let all = parts.concat();
    let want: Vec<Seen> = c.packets.iter().map(|p| p.expect()).collect();
    o.nontrivial_if(parts.len() >= 2);
    o.label_if(parts.len() >= 2, "two or more packets");
    o.label_if(parts.len() >= 5, "five or more packets");
    o.label_if(parts.len() >= 256, "256 or more packets");
    for p in &c.packets {
        label_packet(o, p)
    }
    o.label_if(c.packets.len() >= 2 && c.packets.last().map_or(false, |p| p.p.kind == Kind::OneRtt), "ends in a short header");
    same_seen(&decode_ok(&all, &conn)?, &want)?;
    // one at a time, each taking exactly its own bytes
    let mut s = Bs::new(&all);
    let mut at = 0;
    for (i, p) in parts.iter().enumerate() {
        o.evals(2);
        let got = guard("decode_next_packet", || decode_next_packet(&mut s, &conn))?;
        let got = see(&lib("decode_next_packet", got)?)?;
        same_seen(&[got], &want[i..=i]).map_err(|e| format!("packet {i} of {}: {e}", parts.len()))?;
        at += p.len();
        ensure(s.rest().len() == all.len() - at, || format!("packet {i} of {}: {} bytes left, expected {}", parts.len(), s.rest().len(), all.len() - at))?;
        // alone
        same_seen(&decode_ok(p, &conn)?, &want[i..=i]).map_err(|e| format!("packet {i} alone: {e}"))?;
    }
    Ok(())
}
fn datagrams(n: std::ops::Range<usize>, frames: fn(Kind) -> BoxedStrategy<Vec<crate::model::frame::W>>) -> BoxedStrategy<Datagram> {
    (full_conn(), cid(8..=8), any_cid(), any_cid(), any::<bool>(), vec(packet(kind_long(), frames), n), proptest::option::of(packet(bx(Just(Kind::OneRtt)), frames)))
        .prop_map(|(conn, dcid8, dcid, scid, eight, mut ps, last)| {
            // all packets of a datagram are for one connection
            let d = if last.is_some() || eight { dcid8.clone() } else { dcid };
            for p in ps.iter_mut() {
                p.p.dcid = d.clone();
                p.p.scid = scid.clone();
            }
            if let Some(mut l) = last {
                l.p.dcid = dcid8;
                ps.push(l);
            }
            let packets = ps.into_iter().map(|p| p.fix(&conn)).collect();
            Datagram { conn, packets }
        })
        .boxed()
}
/// up to as many packets as a UDP payload holds: a few packets over and over, with their own numbers
fn crowded() -> BoxedStrategy<Datagram> {
    (datagrams(1..5, payload_small), prop_oneof![2 => 30usize..300, 1 => 300usize..2600, 1 => dict::lens(2600)], any::<u64>())
        .prop_map(|(d, n, step)| {
            let (mut long, last): (Vec<Pk>, Vec<Pk>) = d.packets.into_iter().partition(|p| p.p.kind != Kind::OneRtt);
            for p in long.iter_mut() {
                p.p.token.0.truncate(3);
                p.ws.truncate(2);
            }
            let mut out = vec![];
            let mut room = 65_507 - last.iter().map(|p| p.seal(&d.conn).len()).sum::<usize>();
            for i in 0..n {
                let mut p = long[i % long.len()].clone();
                p.p.pn = p.p.pn.wrapping_add(step.wrapping_mul(i as u64));
                let p = p.fix(&d.conn);
                let len = p.seal(&d.conn).len();
                if len > room {
                    break;
                }
                room -= len;
                out.push(p);
            }
            out.extend(last);
            Datagram { conn: d.conn, packets: out }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("coalesced", "1..5 long-header packets of any type and size, optionally followed by a 1-RTT packet; non-trivial: two or more packets", 8_000, 200_000, || bx(datagrams(1..6, payload_small)), check),
        law("large", "as coalesced, with long payloads; non-trivial: two or more packets", 2_000, 50_000, || bx(datagrams(1..4, payload_any)), check),
        law("many", "10..30 packets in a datagram; all non-trivial", 300, 8_000, || bx(datagrams(10..30, payload_small)), check),
        law("crowded", "30 to 2600 packets in a datagram of up to 65507 bytes; all non-trivial", 40, 2_000, || bx(crowded()), check),
    ]
}
