//! Packet numbers are never reused and spaces are independent.
use super::c10::{frames, fs, make, token};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::F;
use crate::model::packet::open_long;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::frame::Frame;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    /// build an Initial (true) or Handshake packet of these frames and `bytes` of PING
    Build {
        initial: bool,
        bytes: u8,
        token: Option<Bytes>,
        fs: Vec<F>,
    },
    /// ask for the next number of a space
    Next(u8),
    /// the peer acknowledges the number handed out `back` numbers ago
    Ack { space: u8, back: u8 },
    /// an acknowledgement of a number that was never sent
    BadAck { space: u8, ahead: u64 },
    /// from here on the connection has a source id
    Scid(Bytes),
    /// the same operation many times
    Many { space: u8, n: u16 },
}
impl Op {
    fn space(&self) -> Option<usize> {
        Some(match self {
            Op::Build { initial: true, .. } => INITIAL,
            Op::Build { .. } => HANDSHAKE,
            Op::Next(s) | Op::Ack { space: s, .. } | Op::BadAck { space: s, .. } | Op::Many { space: s, .. } => *s as usize,
            Op::Scid(_) => return None,
        })
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct History {
    conn: Conn,
    start: [u64; 3],
    /// how far back from the start the peer has acknowledged; none: not at all
    acked: [Option<u64>; 3],
    ops: Vec<Op>,
}

#[derive(Default)]
struct Run {
    /// numbers handed out per space, in order
    nums: [Vec<u64>; 3],
    failed: u64,
}
impl Run {
    fn got(&mut self, space: usize, pn: u64, how: &str) -> Check {
        if let Some(l) = self.nums[space].last() {
            ensure(pn > *l, || format!("space {space}: {how} got number {pn} after {l}"))?;
        }
        self.nums[space].push(pn);
        Ok(())
    }
}
fn next(c: &mut Connection, r: &mut Run, space: usize) -> Check {
    match guard("get_next_pn", || c.get_next_pn(sp(space)))? {
        Ok((pn, b)) => {
            ensure(b.len() <= 8 && b[..] == pn.to_be_bytes()[8 - b.len()..], || format!("number {pn} with truncated form {}", hex(&b)))?;
            r.got(space, pn, "a request")
        }
        Err(_) => {
            r.failed += 1;
            Ok(())
        }
    }
}
/// runs the operations of `only` (or all) and returns the numbers handed out
fn run(h: &History, only: Option<usize>, o: Option<&mut Obs>) -> Result<Run, String> {
    let mut c = h.conn.build()?;
    let mut r = Run::default();
    for i in 0..3 {
        c.verif_set_next_pn(sp(i), h.start[i]);
        if let (Some(back), true) = (h.acked[i], h.start[i] > 0) {
            // a connection that has sent, and had acknowledged, packets up to here
            c.verif_set_largest_local_ack(sp(i), Some(h.start[i].saturating_sub(back)));
        }
    }
    let mut evals = 0;
    for op in &h.ops {
        if only.is_some() && op.space().is_some() && op.space() != only {
            continue;
        }
        evals += 1;
        crate::pause::step();
        match op {
            Op::Next(s) => next(&mut c, &mut r, *s as usize)?,
            Op::Many { space, n } => {
                for _ in 0..*n {
                    next(&mut c, &mut r, *space as usize)?
                }
                evals += *n as u64;
            }
            Op::Ack { space, back } => {
                let n = &r.nums[*space as usize];
                if let Some(v) = n.get(n.len().wrapping_sub(1 + *back as usize)) {
                    c.verif_set_largest_local_ack(sp(*space as usize), Some(*v))
                }
            }
            Op::BadAck { space, ahead } => {
                let l = r.nums[*space as usize].last().copied().unwrap_or(h.start[*space as usize]);
                c.verif_set_largest_local_ack(sp(*space as usize), Some(l.saturating_add(*ahead)))
            }
            Op::Scid(b) => {
                c.set_scid(u160(b)?, b.len());
            }
            Op::Build { initial, bytes, token, fs } => {
                let space = op.space().unwrap();
                let mut fr = frames(fs)?;
                fr.extend((0..*bytes).map(|_| Frame::Ping));
                match guard("building a packet", || make(*initial, fr, token.as_ref().map(|t| t.0.clone()), &mut c))? {
                    Err(_) => r.failed += 1,
                    Ok(p) => {
                        r.got(space, p.pn(), "a packet")?;
                        // the number that goes on the wire and into the nonce
                        if let Ok(b) = guard("serializing", || p.serialize(&c))? {
                            let k = h.conn.local_keys(space).ok_or("sealed without keys")?;
                            let got = open_long(&b, &k, p.pn().checked_sub(1)).map_err(|e| format!("packet {}: {e}", p.pn()))?;
                            ensure(got.pn == p.pn(), || format!("packet {} carries number {}", p.pn(), got.pn))?;
                        }
                    }
                }
            }
        }
    }
    if let Some(o) = o {
        o.evals(evals)
    }
    Ok(r)
}
fn check(h: &History, o: &mut Obs) -> Check {
    let all = run(h, None, Some(o))?;
    let spaces = all.nums.iter().filter(|n| !n.is_empty()).count();
    o.nontrivial_if(spaces >= 2 && all.nums.iter().any(|n| n.len() >= 2));
    o.label_if(spaces == 3, "three spaces");
    o.label_if(all.failed > 0, "failed constructions");
    o.label_if(all.nums.iter().any(|n| n.len() > 256), "more than 256 numbers");
    for s in 0..3 {
        let mut seen = all.nums[s].clone();
        seen.sort();
        seen.dedup();
        ensure(seen.len() == all.nums[s].len(), || format!("space {s}: a number was handed out twice"))?;
        // the same history without the other spaces
        let alone = run(h, Some(s), None)?;
        ensure(alone.nums[s] == all.nums[s], || {
            let i = alone.nums[s].iter().zip(&all.nums[s]).take_while(|(a, b)| a == b).count();
            format!("space {s}: number {i} is {:?} with the other spaces in use and {:?} without", all.nums[s].get(i), alone.nums[s].get(i))
        })?;
    }
    Ok(())
}
/// acknowledgements alone, which packets may consist of
fn ack() -> BoxedStrategy<F> {
    (vi(), vi(), any::<u8>(), 0u64..5).prop_map(|(l, delay, e, g)| {
        let l = l.max(40);
        F::Ack { largest: l, delay, first: g, ranges: (0..e as u64 % 4).map(|i| (i, g)).collect(), ecn: if e < 64 { Some((1, g, l)) } else { None } }
    }).boxed()
}
fn ops(max_many: u16) -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (any::<bool>(), prop_oneof![1 => Just(0u8), 4 => 4u8..20]).prop_map(|(initial, bytes)| Op::Build { initial, bytes, token: None, fs: vec![] }),
        2 => (any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 1u8..6], token(), prop_oneof![2 => fs(), 1 => vec(ack(), 1..3)]).prop_map(|(initial, bytes, mut token, fs)| {
            token.iter_mut().for_each(|t| t.0.truncate(70));
            Op::Build { initial, bytes, token, fs }
        }),
        5 => (0u8..3).prop_map(Op::Next),
        3 => (0u8..3, 0u8..5).prop_map(|(space, back)| Op::Ack { space, back }),
        1 => (0u8..3, prop_oneof![0u64..5, vi()]).prop_map(|(space, ahead)| Op::BadAck { space, ahead: ahead.min(1 << 40) }),
        1 => any_cid().prop_map(Op::Scid),
        1 => (0u8..3, prop_oneof![4 => 1u16..max_many, 1 => dict::ints(max_many as u64).prop_map(|n| n as u16)]).prop_map(|(space, n)| Op::Many { space, n }),
    ]
    .boxed()
}
fn start() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => Just(0u64),
        4 => (prop::sample::select(vec![8u32, 14, 15, 16, 24, 31, 32, 33, 40, 48, 56, 61]), 0u64..40).prop_map(|(k, d)| (1u64 << k) - d.min(1 << k)),
        1 => vi().prop_map(|v| v.min(VMAX - 1_000_000)),
        1 => (dict::ints(VMAX - 1_000_000), 0u64..40).prop_map(|(v, d)| v.saturating_sub(d)),
    ]
    .boxed()
}
fn acked() -> BoxedStrategy<Option<u64>> {
    prop_oneof![2 => Just(None), 3 => Just(Some(0u64)), 2 => (0u64..300).prop_map(Some), 1 => (0u64..1 << 31).prop_map(Some), 1 => dict::ints(1 << 61).prop_map(Some), 1 => (31u32..61, 0u64..1000).prop_map(|(k, d)| Some((1u64 << k).wrapping_add(d).wrapping_sub(500)))].boxed()
}
fn history(n: std::ops::Range<usize>, max_many: u16) -> BoxedStrategy<History> {
    (prop_oneof![4 => full_conn(), 1 => some_conn()], [start(), start(), start()], [acked(), acked(), acked()], vec(ops(max_many), n))
        .prop_map(|(conn, start, acked, ops)| History { conn, start, acked, ops })
        .boxed()
}
fn check_long(c: &(u8, u32), o: &mut Obs) -> Check {
    let mut conn = Conn { server: c.0 % 2 == 0, cid: Bytes(vec![1; 8]), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build()?;
    let space = (c.0 % 3) as usize;
    let mut r = Run::default();
    o.nontrivial();
    o.evals(c.1 as u64);
    for i in 0..c.1 {
        next(&mut conn, &mut r, space)?;
        // acknowledgements at varying distance
        if c.0 >= 3 && i % 97 == 0 {
            let n = &r.nums[space];
            conn.verif_set_largest_local_ack(sp(space), n.get(n.len().saturating_sub(i as usize % 300 + 1)).copied());
        }
        if c.0 >= 6 && i % 13 == 0 {
            let _ = guard("get_next_pn", || conn.get_next_pn(sp((space + 1) % 3)))?;
        }
    }
    ensure(r.nums[space].len() as u32 == c.1, || format!("only {} of {} requests got a number", r.nums[space].len(), c.1))
}

pub fn laws() -> Vec<Law> {
    vec![
        law("histories", "histories of packet constructions (also failing), number requests, acknowledgements (also bogus) over three spaces, counters starting anywhere; compared with the history of each space alone; non-trivial: two spaces used and one of them twice", 8_000, 200_000, || bx(history(1..40, 400)), check),
        law("pauses", "histories in which a second or more passes; non-trivial: two spaces used and one of them twice", 1, 8, || bx(crate::pause::paused(history(6..30, 40))), |c, o| crate::pause::with_pause(c, o, check)),
        law("long-histories", "as histories, 100 to 300 operations; non-trivial: two spaces used and one of them twice", 400, 10_000, || bx(history(100..300, 30)), check),
        sweep("runs", "70,000 consecutive numbers (thorough: 1,000,000) per space, without and with acknowledgements and other spaces in use; all non-trivial", |t| Box::new((0u8..9).map(move |i| (i, if t { 1_000_000 } else { 70_000 }))), check_long),
    ]
}
