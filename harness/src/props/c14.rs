//! Truncated packet numbers reconstruct to the number that was sent.
use super::c10::{make, pn_ack};
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::packet::decode_pn;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::frame::Frame;
use serde::{Deserialize, Serialize};

fn plain() -> Conn {
    Conn {
        server: false,
        cid: Bytes(vec![3; 8]),
        scid: Some(Bytes(vec![4; 8])),
        hs: Some((Bytes(vec![5; 32]), Bytes(vec![6; 32]))),
        app: Some((Bytes(vec![7; 32]), Bytes(vec![8; 32]))),
        largest: [None; 3],
        miss: [0; 2],
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Recon {
    space: u8,
    largest: Option<u64>,
    /// the other spaces' positions, which must not matter
    others: [Option<u64>; 2],
    /// what this side has sent and had acknowledged, which must not matter either
    sent: [(u64, Option<u64>); 3],
    low: u32,
    len: u8,
}
fn reconstruct(c: &Connection, space: usize, b: &[u8]) -> Result<u64, String> {
    lib("reconstruct_remote_pn", guard("reconstruct_remote_pn", || c.reconstruct_remote_pn(sp(space), b))?)
}
fn check_recon(c: &Recon, o: &mut Obs) -> Check {
    let mut conn = plain().build()?;
    let s = c.space as usize;
    conn.verif_set_largest_remote(sp(s), c.largest);
    for i in 0..2 {
        conn.verif_set_largest_remote(sp((s + 1 + i) % 3), c.others[i]);
    }
    for i in 0..3 {
        conn.verif_set_next_pn(sp(i), c.sent[i].0);
        conn.verif_set_largest_local_ack(sp(i), c.sent[i].1);
    }
    let b = &c.low.to_be_bytes()[4 - c.len as usize..];
    let tr = b.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    let want = decode_pn(c.largest, tr, c.len as usize);
    let got = reconstruct(&conn, s, b)?;
    ensure(got == want, || format!("largest {:?}, truncated {} : got {got}, RFC 9000 A.3 gives {want}", c.largest, hex(b)))?;
    o.nontrivial_if(want != tr);
    o.label(["", "1 byte", "2 bytes", "3 bytes", "4 bytes"][c.len as usize]);
    if let Some(l) = c.largest {
        o.label_if(want <= l, "older than the largest");
        let w = 1u64 << (8 * c.len);
        o.label_if(want > l && want / w > l / w, "next window");
        o.label_if(want < l && want / w < l / w, "previous window");
        o.label_if(l > u32::MAX as u64, "largest above 32 bits");
    }
    Ok(())
}
/// low bytes near the edges of the window around the expected number
fn recons() -> BoxedStrategy<Recon> {
    let sent = || (vi(), proptest::option::of(vi()));
    (0u8..3, largest(), [largest(), largest()], [sent(), sent(), sent()], any::<u32>(), 1u8..=4, prop_oneof![2 => Just(None), 5 => (0u8..4, -3i64..=3).prop_map(Some)])
        .prop_map(|(space, largest, others, sent, low, len, edge)| {
            let low = match edge {
                None => low,
                Some((which, d)) => {
                    let e = largest.map_or(0, |l| l + 1) as i64;
                    let w = 1i64 << (8 * len);
                    let at = [e, e + w / 2, e - w / 2, e & !(w - 1)][which as usize].wrapping_add(d);
                    at as u32
                }
            };
            Recon { space, largest, others, sent, low, len }
        })
        .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Trunc {
    space: u8,
    pn: u64,
    ack: Option<u64>,
    seen: Vec<u8>,
    /// what this side has received in the same space, which must not matter
    #[serde(default)]
    received: Option<u64>,
    others: [Option<u64>; 2],
}
fn check_trunc(c: &Trunc, o: &mut Obs) -> Check {
    let s = c.space as usize;
    let mut conn = plain().build()?;
    next_is(&mut conn, s, c.pn);
    conn.verif_set_largest_local_ack(sp(s), c.ack);
    conn.verif_set_largest_remote(sp(s), c.received);
    for i in 0..2 {
        conn.verif_set_largest_local_ack(sp((s + 1 + i) % 3), c.others[i]);
        conn.verif_set_largest_remote(sp((s + 1 + i) % 3), c.others[1 - i]);
    }
    let must = match c.ack {
        None => c.pn <= u32::MAX as u64,
        Some(a) => c.pn > a && c.pn - a < 1 << 31,
    };
    let r = guard("get_next_pn", || conn.get_next_pn(sp(s)))?;
    let (pn, b) = match r {
        Err(e) => {
            o.label("refused");
            return ensure(!must, || format!("number {} with {:?} acknowledged refused: {e:?}", c.pn, c.ack));
        }
        Ok(x) => x,
    };
    ensure(pn == c.pn, || format!("number {pn} handed out, {} was next", c.pn))?;
    ensure(b.len() <= 8 && b[..] == pn.to_be_bytes()[8 - b.len()..], || format!("number {pn} truncated to {}", hex(&b)))?;
    if b.is_empty() || b.len() > 4 {
        // may not reach the wire
        ensure(!must, || format!("number {} with {:?} acknowledged truncated to {} bytes", c.pn, c.ack, b.len()))?;
        o.label("unusable length, refused by the packet");
        for initial in [true, false] {
            let space = if initial { INITIAL } else { HANDSHAKE };
            let mut conn = plain().build()?;
            next_is(&mut conn, space, c.pn);
            conn.verif_set_largest_local_ack(sp(space), c.ack);
            let fr: Vec<Frame> = (0..8).map(|_| Frame::Ping).collect();
            let p = guard("building a packet", || make(initial, fr, None, &mut conn))?;
            ensure(p.is_err(), || format!("a packet was built with a {}-byte packet number", b.len()))?;
        }
        return Ok(());
    }
    o.nontrivial();
    o.label(["", "1 byte", "2 bytes", "3 bytes", "4 bytes"][b.len()]);
    // every receiver that may exist recovers it, by RFC 9000 A.3 and by the library
    let tr = b.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    let mut at = vec![];
    match c.ack {
        None => {
            at.push(None);
            at.extend((0..c.pn.min(2)).map(Some));
            at.push(Some(c.pn - 1));
        }
        Some(a) if c.pn > a => {
            at.extend([Some(a), Some(c.pn - 1)]);
            at.extend(c.seen.iter().map(|x| Some(a + ((c.pn - 1 - a) as u128 * *x as u128 / 255) as u64)));
        }
        _ => {}
    }
    for l in at {
        o.evals(2);
        let got = decode_pn(l, tr, b.len());
        ensure(got == c.pn, || format!("number {} ({:?} acknowledged) sent as {}: a receiver at {l:?} reads {got}", c.pn, c.ack, hex(&b)))?;
        conn.verif_set_largest_remote(sp(s), l);
        let got = reconstruct(&conn, s, &b)?;
        ensure(got == c.pn, || format!("number {} sent as {}: the library at {l:?} reads {got}", c.pn, hex(&b)))?;
    }
    Ok(())
}
fn received() -> BoxedStrategy<(bool, Option<u64>)> {
    prop_oneof![
        1 => largest().prop_map(|l| (false, l)),
        2 => vi().prop_map(|d| (true, Some(d))),
    ]
    .boxed()
}

/// every 1-byte truncated number at every position around the first windows
fn check_small(l: &Option<u64>, o: &mut Obs) -> Check {
    o.nontrivial();
    let mut conn = plain().build()?;
    conn.verif_set_largest_remote(sp(APP), *l);
    for len in 1..=2usize {
        let step = if len == 1 { 1 } else { 127 };
        for t in (0..1u64 << (8 * len)).step_by(step) {
            o.evals(1);
            let want = decode_pn(*l, t, len);
            let got = reconstruct(&conn, APP, &t.to_be_bytes()[8 - len..])?;
            ensure(got == want, || format!("largest {l:?}, {len}-byte {t:#x}: got {got}, RFC 9000 A.3 gives {want}"))?;
        }
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("reconstruct", "truncated numbers of 1..4 bytes at any receive position, dense at the window edges, other spaces' and the send state varied; non-trivial: the result differs from the truncated value", 60_000, 2_500_000, || bx(recons()), check_recon),
        law("truncate", "numbers and acknowledgements at every distance, received anywhere in between; non-trivial: sent in 1..4 bytes", 40_000, 1_500_000, || {
            bx((0u8..3, pn_ack(), proptest::collection::vec(any::<u8>(), 0..4), [largest(), largest()], received()).prop_map(|(space, (pn, ack), seen, others, (near, at))| {
                let received = if near { at.map(|d| pn.saturating_sub(d)) } else { at };
                Trunc { space, pn, ack, seen, received, others }
            }))
        }, check_trunc),
        sweep("windows", "every 1-byte and every 127th 2-byte truncated number at every receive position from none to 1100 and around 2^16 and 2^62, enumerated; all non-trivial", |_| {
            Box::new(std::iter::once(None).chain((0u64..1100).chain(65_300..65_800).chain((1 << 62) - 700..(1 << 62) - 1).map(Some)))
        }, check_small),
        sweep("distances", "every distance from 1 to 70,000 at three positions, enumerated; non-trivial: sent in 1..4 bytes", |_| {
            Box::new((1u64..70_000).flat_map(|d| {
                [0u64, 250, (1 << 32) - 30_000].into_iter().map(move |a| Trunc { space: (d % 3) as u8, pn: a + d, ack: Some(a), seen: vec![128], received: None, others: [None, Some(5)] })
            }))
        }, check_trunc),
    ]
}
