//! Two endpoints of the library understand each other over an unreliable network.
use super::c10::{frames, make};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::model::packet::{open_long, Kind, P};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Out {
    initial: bool,
    token: Option<Bytes>,
    fs: Vec<F>,
}
/// `ex` is the exchange, `side` 0 the client and 1 the server
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// puts packets into one datagram and sends it
    Send { ex: u8, side: u8, outs: Vec<Out> },
    /// some datagram in flight to that side arrives; it may arrive again
    Arrive { ex: u8, side: u8, which: u16, again: bool },
    /// a datagram in flight is lost
    Lose { ex: u8, side: u8, which: u16 },
    /// a damaged copy arrives: bit flipped, cut, or with bytes put in
    Damage { ex: u8, side: u8, which: u16, how: u8, at: u32 },
    /// a datagram comes back to its sender, or reaches the other exchange
    Stray { ex: u8, side: u8, which: u16, back: bool },
    /// that side learns what the other has received in a space
    Ack { ex: u8, side: u8, initial: bool },
    /// numbers are used up without a packet
    Skip { ex: u8, side: u8, initial: bool, n: u16 },
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Exchange {
    cid: Bytes,
    scid: [Bytes; 2],
    /// handshake secrets of the client and the server
    hs: [Bytes; 2],
    /// how many packets went before, per side and space, all received and acknowledged
    before: [[u64; 2]; 2],
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    exs: Vec<Exchange>,
    ops: Vec<Op>,
}

/// a packet as it was given to the library
#[derive(Clone, Debug)]
struct Sent {
    space: usize,
    pn: u64,
    token: Bytes,
    fs: Vec<F>,
    bytes: Vec<u8>,
}
type Datagram = Vec<Sent>;
struct End {
    spec: Conn,
    conn: Connection,
    /// last number handed out, largest acknowledged and largest received, per space
    last: [u64; 2],
    acked: [Option<u64>; 2],
    seen: [Option<u64>; 2],
    /// datagrams on their way to this end
    inbox: Vec<Datagram>,
}
impl End {
    fn new(e: &Exchange, side: usize) -> Result<Self, String> {
        let seen: Vec<Option<u64>> = (0..2).map(|s| if e.before[1 - side][s] > 0 { Some(e.before[1 - side][s]) } else { None }).collect();
        let spec = Conn {
            server: side == 1,
            cid: e.cid.clone(),
            scid: Some(e.scid[side].clone()),
            hs: Some((e.hs[side].clone(), e.hs[1 - side].clone())),
            app: None,
            largest: [seen[0], seen[1], None],
            miss: [0; 2],
        };
        let mut conn = spec.build()?;
        let mut acked = [None; 2];
        for s in 0..2 {
            if e.before[side][s] > 0 {
                next_is(&mut conn, s, e.before[side][s] + 1);
                acked[s] = Some(e.before[side][s]);
                conn.verif_set_largest_local_ack(sp(s), acked[s]);
            }
        }
        Ok(End { spec, conn, last: e.before[side], acked, seen: [seen[0], seen[1]], inbox: vec![] })
    }
    fn send(&mut self, outs: &[Out], o: &mut Obs) -> Result<Datagram, String> {
        let mut d = vec![];
        for x in outs {
            let space = if x.initial { INITIAL } else { HANDSHAKE };
            let token = if x.initial { x.token.clone() } else { None };
            let fr = frames(&x.fs)?;
            // a number this far from what is acknowledged cannot be sent
            let far = match self.acked[space] {
                None => self.last[space] > 0xf000_0000,
                Some(a) => self.last[space] - a > 0x7000_0000,
            };
            let conn = &mut self.conn;
            let r = guard("building a packet", || make(x.initial, fr, token.as_ref().map(|t| t.0.clone()), conn))?;
            let p = match r {
                Err(_) if far => continue,
                r => lib("building a packet", r)?,
            };
            ensure(p.pn() > self.last[space], || format!("space {space}: number {} after {}", p.pn(), self.last[space]))?;
            self.last[space] = p.pn();
            let bytes = lib("serialize", guard("serializing a packet", || p.serialize(&self.conn))?)?;
            o.evals(1);
            d.push(Sent { space, pn: p.pn(), token: token.unwrap_or_default(), fs: x.fs.clone(), bytes });
        }
        Ok(d)
    }
    /// what this end must report of a packet, and whether its number is in the window
    fn expect(&self, from: &Conn, p: &Sent) -> (Option<usize>, Seen) {
        let k = self.spec.remote_keys(p.space).expect("keys");
        let r = open_long(&p.bytes, &k, self.seen[p.space]).ok().filter(|r| r.pn == p.pn);
        let kind = if p.space == INITIAL { Kind::Initial } else { Kind::Handshake };
        let pn_len = r.as_ref().map_or(1, |r| r.pn_len);
        let h = P { kind, version: 1, dcid: from.cid.clone(), scid: from.scid.clone().unwrap_or_default(), token: p.token.clone(), token_w: 0, len_w: 0, pn: p.pn, pn_len: pn_len as u8, spin: false, phase: false };
        (r.map(|r| r.pn_len), Seen::Pkt { kind, header: Bytes(h.id_part()), token: p.token.clone(), pn: p.pn, frames: p.fs.clone() })
    }
    /// whether the number is one this end tells apart
    fn in_window(&self, p: &Sent) -> bool {
        match self.seen[p.space] {
            None => p.pn < 0x7fff_ffff,
            Some(l) => p.pn > l && p.pn - l < 0x7000_0000 || p.pn <= l && l - p.pn < 100,
        }
    }
}

/// content of a report without what header protection hides
fn same_packet(a: &Seen, b: &Seen) -> bool {
    match (a, b) {
        (Seen::Pkt { kind: k, header: h, token: t, pn: n, frames: f }, Seen::Pkt { kind: k2, header: h2, token: t2, pn: n2, frames: f2 }) => k == k2 && h[1..] == h2[1..] && t == t2 && n == n2 && f == f2,
        _ => false,
    }
}
/// nothing but these packets may be reported
fn only(got: Vec<Seen>, may: &[Seen], what: &str) -> Check {
    for g in got {
        if matches!(g, Seen::Pkt { .. }) && !may.iter().any(|m| same_packet(&g, m)) {
            return Err(format!("{what}: reported {}", short(&g)));
        }
    }
    Ok(())
}
fn reports(b: &[u8], c: &Connection) -> Result<Vec<Seen>, String> {
    match decode(b, c)? {
        Err(_) => Ok(vec![]),
        Ok(x) => see_all(&x),
    }
}

fn check(c: &Case, o: &mut Obs) -> Check {
    let mut ends: Vec<[End; 2]> = c.exs.iter().map(|e| Ok([End::new(e, 0)?, End::new(e, 1)?])).collect::<Result<_, String>>()?;
    let n = ends.len();
    let (mut arrived, mut reordered, mut ways) = (0u64, false, [false; 2]);
    let pick = |x: &End, w: u16| if x.inbox.is_empty() { None } else { Some(w as usize % x.inbox.len()) };
    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("step {i}: {e}");
        crate::pause::step();
        match op {
            Op::Send { ex, side, outs } => {
                let e = &mut ends[*ex as usize % n];
                let s = *side as usize % 2;
                let d = e[s].send(outs, o).map_err(at)?;
                if !d.is_empty() {
                    e[1 - s].inbox.push(d);
                }
            }
            Op::Arrive { ex, side, which, again } => {
                let e = &mut ends[*ex as usize % n];
                let s = *side as usize % 2;
                let Some(w) = pick(&e[s], *which) else { continue };
                reordered |= w > 0;
                ways[s] = true;
                o.label_if(*again, "arrives twice");
                let d = if *again { e[s].inbox[w].clone() } else { e[s].inbox.remove(w) };
                let from = e[1 - s].spec.clone();
                let b: Vec<u8> = d.iter().flat_map(|p| p.bytes.clone()).collect();
                let to = &mut e[s];
                let want: Vec<(Option<usize>, Seen)> = d.iter().map(|p| to.expect(&from, p)).collect();
                o.evals(1);
                let near = d.iter().all(|p| to.in_window(p));
                if let (Some(k), true) = (want.iter().position(|w| w.0.is_none()), near) {
                    return Err(at(format!("packet {} of space {} sent when {:?} was received there cannot be opened by its receiver at {:?}", d[k].pn, d[k].space, e[1 - s].acked, e[s].seen)));
                }
                if want.iter().all(|w| w.0.is_some()) {
                    let got = decode_ok(&b, &to.conn).map_err(at)?;
                    same_seen(&got, &want.into_iter().map(|w| w.1).collect::<Vec<_>>()).map_err(at)?;
                    arrived += 1;
                    o.label_if(d.len() > 1, "coalesced");
                    for p in &d {
                        let l = &mut to.seen[p.space];
                        o.label_if(l.map_or(false, |l| l > p.pn), "older than the newest");
                        *l = Some(l.map_or(p.pn, |l| l.max(p.pn)));
                        let l = *l;
                        to.conn.verif_set_largest_remote(sp(p.space), l);
                    }
                } else {
                    o.label("too old for its number");
                    let may: Vec<Seen> = want.into_iter().filter(|w| w.0.is_some()).map(|w| w.1).collect();
                    only(reports(&b, &to.conn)?, &may, "a datagram with a number outside the window").map_err(at)?;
                }
            }
            Op::Lose { ex, side, which } => {
                let x = &mut ends[*ex as usize % n][*side as usize % 2];
                if let Some(w) = pick(x, *which) {
                    x.inbox.remove(w);
                }
            }
            Op::Damage { ex, side, which, how, at: pos } => {
                let e = &ends[*ex as usize % n];
                let s = *side as usize % 2;
                let Some(w) = pick(&e[s], *which) else { continue };
                let d = &e[s].inbox[w];
                let mut b: Vec<u8> = d.iter().flat_map(|p| p.bytes.clone()).collect();
                let p = *pos as usize % b.len();
                // the packets that are still whole
                let mut start = 0;
                let mut hit = vec![];
                for q in d {
                    hit.push(p >= start && p < start + q.bytes.len());
                    start += q.bytes.len();
                }
                match how % 3 {
                    0 => b[p] ^= 1 << (how / 3 % 8),
                    1 => {
                        b.truncate(p);
                        let k = hit.iter().position(|h| *h).unwrap();
                        hit[k..].iter_mut().for_each(|h| *h = true);
                    }
                    _ => b.insert(p, *how),
                }
                // bytes put in just before a packet, or cuts at its start, leave the ones before and after whole
                let may: Vec<Seen> = d.iter().zip(&hit).filter(|(_, h)| how % 3 == 2 || !**h).map(|(q, _)| e[s].expect(&e[1 - s].spec, q).1).collect();
                o.label("damaged");
                o.evals(1);
                only(reports(&b, &e[s].conn)?, &may, "a damaged datagram").map_err(at)?;
            }
            Op::Stray { ex, side, which, back } => {
                let k = *ex as usize % n;
                let s = *side as usize % 2;
                let Some(w) = pick(&ends[k][s], *which) else { continue };
                let d = &ends[k][s].inbox[w];
                let b: Vec<u8> = d.iter().flat_map(|p| p.bytes.clone()).collect();
                let to = if *back { &ends[k][1 - s] } else { &ends[(k + 1) % n][s] };
                let from = &ends[k][1 - s];
                if d.iter().any(|p| to.spec.remote_keys(p.space) == from.spec.local_keys(p.space)) {
                    continue;
                }
                o.label(if *back { "back at its sender" } else { "at the other exchange" });
                o.evals(1);
                only(reports(&b, &to.conn)?, &[], "a datagram at an end it was not sent to").map_err(at)?;
            }
            Op::Ack { ex, side, initial } => {
                let e = &mut ends[*ex as usize % n];
                let s = *side as usize % 2;
                let space = if *initial { INITIAL } else { HANDSHAKE };
                let seen = e[1 - s].seen[space];
                e[s].acked[space] = seen;
                e[s].conn.verif_set_largest_local_ack(sp(space), seen);
            }
            Op::Skip { ex, side, initial, n: k } => {
                let e = &mut ends[*ex as usize % n][*side as usize % 2];
                let space = if *initial { INITIAL } else { HANDSHAKE };
                for _ in 0..*k {
                    if let Ok((pn, _)) = guard("get_next_pn", || e.conn.get_next_pn(sp(space)))? {
                        ensure(pn > e.last[space], || at(format!("space {space}: number {pn} after {}", e.last[space])))?;
                        e.last[space] = pn;
                    }
                }
            }
        }
    }
    o.nontrivial_if(arrived >= 2);
    o.label_if(reordered, "reordered");
    o.label_if(ways == [true; 2], "both ways");
    o.label_if(arrived > 10, "over 10 datagrams arrived");
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    ex: Exchange,
    /// datagrams, from the server or the client, in turn
    ds: Vec<(bool, Vec<Out>)>,
    n: u16,
    /// acknowledged every so often
    every: u16,
    /// lost, in 1/255; as many are repeated
    lost: u8,
}
fn check_long(c: &Long, o: &mut Obs) -> Check {
    let mut ops = vec![];
    for i in 0..c.n {
        let (server, outs) = &c.ds[i as usize % c.ds.len()];
        let (side, to) = (*server as u8, 1 - *server as u8);
        ops.push(Op::Send { ex: 0, side, outs: outs.clone() });
        let x = (i as u32 + 1).wrapping_mul(2654435761).to_be_bytes();
        ops.push(if x[1] < c.lost { Op::Lose { ex: 0, side: to, which: 0 } } else { Op::Arrive { ex: 0, side: to, which: 0, again: x[2] < c.lost } });
        if i % c.every == 0 {
            for (side, initial) in [(0, false), (0, true), (1, false), (1, true)] {
                ops.push(Op::Ack { ex: 0, side, initial });
            }
        }
    }
    check(&Case { exs: vec![c.ex.clone()], ops }, o)?;
    o.label_if(c.n > 1000, "over 1000 datagrams");
    Ok(())
}

fn outs() -> BoxedStrategy<Out> {
    let f = prop_oneof![3 => (0usize..60, vi()).prop_map(|(n, off)| F::Crypto { off: off.min(VMAX - 60), data: Bytes((0..n).map(|i| i as u8 ^ off as u8).collect()) }), 1 => Just(F::Ping), 1 => Just(F::Padding), 1 => frame().prop_filter("allowed", |f| allowed(Kind::Initial, f))];
    let token = prop_oneof![10 => content(0..40), 1 => content(60..70), 1 => content(250..300), 1 => dict_len(1000)];
    (any::<bool>(), option::of(token), vec(f, 1..4), prop_oneof![30 => Just(None), 2 => (1000usize..1500).prop_map(Some), 1 => (16_000usize..17_000).prop_map(Some), 1 => dict::lens(9000).prop_map(Some)])
        .prop_map(|(initial, token, mut fs, size)| {
            if let Some(n) = size {
                let data = Bytes((0..n).map(|i| (i * 7 + n) as u8).collect());
                if n % 2 == 0 {
                    fs.push(F::Crypto { off: 0, data });
                } else {
                    fs.extend(vec![F::Padding; n]);
                }
            }
            // long enough to be sampled whatever the number's length
            fs.extend([F::Padding, F::Padding, F::Padding]);
            Out { initial, token, fs }
        })
        .boxed()
}
fn ops() -> BoxedStrategy<Op> {
    let e = || (any::<u8>(), any::<u8>());
    prop_oneof![
        8 => (e(), prop_oneof![30 => vec(outs(), 1..2), 10 => vec(outs(), 2..5), 1 => vec(outs(), 5..24)]).prop_map(|((ex, side), outs)| Op::Send { ex, side, outs }),
        8 => (e(), prop_oneof![1 => Just(0u16), 1 => any::<u16>()], prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|((ex, side), which, again)| Op::Arrive { ex, side, which, again }),
        1 => (e(), any::<u16>()).prop_map(|((ex, side), which)| Op::Lose { ex, side, which }),
        1 => (e(), any::<u16>(), any::<u8>(), any::<u32>()).prop_map(|((ex, side), which, how, at)| Op::Damage { ex, side, which, how, at }),
        1 => (e(), any::<u16>(), any::<bool>()).prop_map(|((ex, side), which, back)| Op::Stray { ex, side, which, back }),
        3 => (e(), any::<bool>()).prop_map(|((ex, side), initial)| Op::Ack { ex, side, initial }),
        1 => (e(), any::<bool>(), prop_oneof![3 => 1u16..10, 1 => 100u16..700]).prop_map(|((ex, side), initial, n)| Op::Skip { ex, side, initial, n }),
    ]
    .boxed()
}
fn before() -> BoxedStrategy<u64> {
    prop_oneof![3 => Just(0u64), 2 => 1u64..600, 3 => vi().prop_map(|v| v.min(VMAX - 10_000_000)), 2 => (prop::sample::select(vec![8u32, 15, 16, 24, 31, 32, 48]), 0u64..40).prop_map(|(k, d)| (1u64 << k) - d)].boxed()
}
fn cases(n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (relatives(0, 20, 0..2), vec(any_cid(), 4), relatives(32, 32, 3..4), vec(before(), 8), vec(ops(), n))
        .prop_map(|(ids, scids, hs, b, ops)| {
            let exs = ids
                .into_iter()
                .enumerate()
                .map(|(i, cid)| Exchange { cid, scid: [scids[2 * i].clone(), scids[2 * i + 1].clone()], hs: [hs[2 * i].clone(), hs[2 * i + 1].clone()], before: [[b[4 * i], b[4 * i + 1]], [b[4 * i + 2], b[4 * i + 3]]] })
                .collect();
            Case { exs, ops }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("exchanges", "one or two exchanges between a client and a server of the library with similar ids and secrets: coalesced datagrams both ways, lost, repeated, reordered, damaged, reflected, acknowledged now and then, after any number of earlier packets; non-trivial: two or more datagrams arrived", 3_000, 80_000, || bx(cases(4..40)), check),
        law("pauses", "exchanges in which a second or more passes; non-trivial: two or more datagrams arrived", 1, 8, || bx(crate::pause::paused(cases(12..40))), |c, o| crate::pause::with_pause(c, o, check)),
        law("long-exchanges", "the same with 200 to 600 steps; non-trivial: two or more datagrams arrived", 30, 800, || bx(cases(200..600)), check),
        law("long-lived", "hundreds to thousands of datagrams both ways between two ends, acknowledged at some distance, some lost or repeated; non-trivial: over 100", 4, 150, || bx((cases(0..1), vec((any::<bool>(), vec(outs(), 1..3)), 1..6), prop_oneof![3 => 100u16..1000, 1 => 1000u16..4000, 1 => dict::ints(4000).prop_map(|n| n.saturating_add(2) as u16)], 1u16..90, any::<u8>()).prop_map(|(c, mut ds, n, every, lost)| {
            for o in ds.iter_mut().flat_map(|d| &mut d.1) {
                o.fs.retain(|f| !matches!(f, F::Padding | F::Crypto { .. }));
                o.fs.truncate(2);
                o.fs.extend([F::Ping, F::Padding, F::Padding, F::Padding]);
            }
            Long { ex: c.exs[0].clone(), ds, n, every, lost }
        })), check_long),
    ]
}
