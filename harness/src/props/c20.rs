//! Datagrams are routed only to the connection they address.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::routing::Socket;
use quic_sea::verif::utils::prelude::U160;
use quic_sea::QuicStream;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// how a datagram names its destination
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Form {
    Short { first: u8 },
    Long { first: u8, version: u32, scid: Bytes },
    Vn { first: u8, scid: Bytes },
}
/// what happens to the 8 id bytes on the way into the header
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Alias {
    Exact,
    /// zero bytes in front
    Pad(u8),
    /// leading bytes left out
    Strip(u8),
    /// bytes behind
    Extend(Bytes),
    /// one bit changed
    Bit(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Add(u16),
    /// through the socket
    Remove(u16),
    /// by dropping the stream handle
    DropStream(u16),
    Arrive { id: u16, alias: Alias, form: Form, body: Bytes, times: u16 },
    /// a datagram cut inside its header
    Cut { id: u16, form: Form, at: u16 },
    Raw(Bytes),
    Drain(u16),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct History {
    pub ids: Vec<u64>,
    pub ops: Vec<Op>,
}
pub fn alias_bytes(id: u64, a: &Alias) -> Vec<u8> {
    let b = id.to_be_bytes();
    match a {
        Alias::Exact => b.to_vec(),
        Alias::Pad(n) => [&vec![0u8; *n as usize][..], &b].concat(),
        Alias::Strip(n) => b[*n as usize % 9..].to_vec(),
        Alias::Extend(x) => [&b[..], x].concat(),
        Alias::Bit(i) => {
            let mut b = b;
            b[(*i as usize / 8) % 8] ^= 1 << (i % 8);
            b.to_vec()
        }
    }
}
/// header bytes; a short header carries the first 8 bytes of id and body
pub fn header(f: &Form, id: &[u8]) -> Vec<u8> {
    let long = |first: u8, v: u32, s: &[u8]| {
        let mut b = vec![first | 0x80];
        b.extend(v.to_be_bytes());
        b.push(id.len() as u8);
        b.extend_from_slice(id);
        b.push(s.len() as u8);
        b.extend_from_slice(s);
        b
    };
    match f {
        Form::Short { first } => [&[first & 0x7f][..], id].concat(),
        Form::Long { first, version, scid } => long(*first, (*version).max(1), scid),
        Form::Vn { first, scid } => long(*first, 0, scid),
    }
}
/// the live id a datagram addresses, by the reference parser
fn addressed(b: &[u8]) -> Option<u64> {
    let h = super::c15::parse(b).ok()?;
    let id: [u8; 8] = h.dcid.try_into().ok()?;
    Some(u64::from_be_bytes(id))
}
fn number(id: U160) -> Result<u64, String> {
    let b = id.to_bytes();
    ensure(b[..12].iter().all(|x| *x == 0), || "an issued id exceeds 8 bytes".into())?;
    Ok(u64::from_be_bytes(b[12..].try_into().unwrap()))
}
type Queues = BTreeMap<u64, Vec<Vec<u8>>>;
fn arrive(s: &Socket, live: &mut Queues, b: &[u8], o: &mut Obs) -> Check {
    let r = guard("route_datagram", || s.route(b))?;
    o.evals(1);
    match addressed(b).filter(|i| live.contains_key(i)) {
        Some(i) => {
            lib("routing a datagram for a live connection", r).map_err(|e| format!("{e}: {}", hex(&b[..b.len().min(60)])))?;
            live.get_mut(&i).unwrap().push(b.to_vec());
            o.label("delivered");
        }
        None => {
            o.label("refused");
            ensure(r.is_err(), || format!("a datagram for no live connection was accepted: {}", hex(&b[..b.len().min(60)])))?;
        }
    }
    Ok(())
}
fn drain(s: &Socket, live: &mut Queues, id: u64) -> Check {
    let got = guard("drain", || s.drain(U160::from(id)))?;
    match (got, live.get_mut(&id)) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("connection {id:#x} still exists")),
        (None, Some(_)) => Err(format!("connection {id:#x} is gone")),
        (Some(g), Some(w)) => {
            let w = std::mem::take(w);
            ensure(g.len() == w.len(), || format!("connection {id:#x}: {} datagrams queued, {} expected", g.len(), w.len()))?;
            for (i, ((g, _), w)) in g.iter().zip(&w).enumerate() {
                ensure(g == w, || format!("connection {id:#x}, datagram {i}: {} expected {}", hex(&g[..g.len().min(60)]), hex(&w[..w.len().min(60)])))?;
            }
            Ok(())
        }
    }
}
fn table(s: &Socket, live: &Queues) -> Check {
    let mut ids = BTreeSet::new();
    for i in guard("ids", || s.ids())? {
        ids.insert(number(i)?);
    }
    let want: BTreeSet<u64> = live.keys().copied().collect();
    ensure(ids == want, || format!("live connections {ids:x?}, expected {want:x?}"))
}
pub fn check(h: &History, o: &mut Obs) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    let mut live: Queues = BTreeMap::new();
    let mut dropped = false;
    let conn = |i: u64| Conn { server: true, cid: Bytes(i.to_be_bytes().to_vec()), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build();
    let pick = |k: u16| h.ids[k as usize % h.ids.len()];
    for op in &h.ops {
        crate::pause::step();
        match op {
            Op::Add(k) => {
                let id = pick(*k);
                if !live.contains_key(&id) {
                    s.insert(id, conn(id)?);
                    live.insert(id, vec![]);
                    o.label_if(dropped, "added after a drop");
                }
            }
            Op::Remove(k) => {
                guard("drop_connection", || s.remove(U160::from(pick(*k))))?;
                dropped |= live.remove(&pick(*k)).is_some();
            }
            Op::DropStream(k) => {
                let id = pick(*k);
                if live.remove(&id).is_some() {
                    let st = QuicStream::verif_new(&s, U160::from(id));
                    guard("dropping a stream", move || drop(st))?;
                    dropped = true;
                    o.label("stream dropped");
                }
            }
            Op::Arrive { id, alias, form, body, times } => {
                let mut b = [&header(form, &alias_bytes(pick(*id), alias))[..], body].concat();
                b.truncate(65_507 - 2);
                o.label_if(b.len() > 1500, "over 1500 bytes");
                o.label(match form {
                    Form::Short { .. } => "short header",
                    Form::Long { .. } => "long header",
                    Form::Vn { .. } => "version negotiation",
                });
                o.label_if(*alias != Alias::Exact, "similar id");
                let times = if b.len() > 1500 { &1 } else { times };
                for i in 0..*times {
                    // distinguishable copies
                    let mut b = b.clone();
                    if *times > 1 {
                        b.extend(i.to_be_bytes());
                    }
                    arrive(&s, &mut live, &b, o)?;
                }
                o.label_if(*times > 1000, "over 1000 in a row");
            }
            Op::Cut { id, form, at } => {
                let b = header(form, &pick(*id).to_be_bytes());
                let n = *at as usize % b.len();
                arrive(&s, &mut live, &b[..n], o)?;
                o.label("cut header");
            }
            Op::Raw(b) => arrive(&s, &mut live, b, o)?,
            Op::Drain(k) => drain(&s, &mut live, pick(*k))?,
        }
        if h.ids.len() <= 8 {
            table(&s, &live)?;
        }
    }
    o.label_if(live.len() > 100, "over 100 connections");
    o.nontrivial_if(live.values().filter(|q| !q.is_empty()).count() >= 1 && h.ops.len() >= 3);
    o.label_if(live.values().filter(|q| !q.is_empty()).count() >= 2, "two queues in use");
    o.label_if(dropped, "a connection was dropped");
    for id in h.ids.clone() {
        drain(&s, &mut live, id)?;
    }
    table(&s, &live)
}
fn id() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        2 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => prop::sample::select(vec![0u64, 1, u64::MAX, 1 << 32, 1 << 56, 0xff, 0x00ff_ffff_ffff_ffff]),
        1 => any::<u64>().prop_map(|v| v >> 8),
        1 => any::<u32>().prop_map(|v| v as u64),
    ]
    .boxed()
}
/// ids that are easy to confuse: neighbours, shifts, swapped halves
pub fn ids() -> BoxedStrategy<Vec<u64>> {
    (id(), vec((id(), 0u8..9), 1..6))
        .prop_map(|(a, v)| {
            let mut out = vec![a];
            for (x, how) in v {
                let l = *out.last().unwrap();
                let n = match how {
                    0 => l ^ 1,
                    1 => l.rotate_left(32),
                    2 => l << 8,
                    3 => l >> 8,
                    4 => l ^ 1 << 63,
                    // one byte differs
                    7 => l ^ (x >> 56).max(1) << (8 * (x % 8)),
                    _ => x,
                };
                if !out.contains(&n) {
                    out.push(n)
                }
            }
            out
        })
        .boxed()
}
pub fn form() -> BoxedStrategy<Form> {
    prop_oneof![
        3 => any::<u8>().prop_map(|first| Form::Short { first }),
        4 => (any::<u8>(), prop_oneof![3 => Just(1u32), 1 => 1u32..], any_cid()).prop_map(|(first, version, scid)| Form::Long { first, version, scid }),
        2 => (any::<u8>(), prop_oneof![3 => any_cid(), 1 => cid(21..=255)]).prop_map(|(first, scid)| Form::Vn { first, scid }),
    ]
    .boxed()
}
pub fn alias() -> BoxedStrategy<Alias> {
    prop_oneof![
        8 => Just(Alias::Exact),
        2 => (1u8..=12).prop_map(Alias::Pad),
        1 => (13u8..=200).prop_map(Alias::Pad),
        1 => (1u8..=8).prop_map(Alias::Strip),
        1 => content(1..12).prop_map(Alias::Extend),
        1 => (0u8..64).prop_map(Alias::Bit),
    ]
    .boxed()
}
/// up to the largest UDP payload
fn huge_body() -> BoxedStrategy<Bytes> {
    (prop_oneof![1 => 1500usize..65_507, 1 => 65_000usize..65_507, 1 => 4080usize..4110, 1 => 8990usize..9100, 1 => dict::lens(65_400)], any::<u8>())
        .prop_map(|(n, k)| Bytes((0..n).map(|i| (i as u8).wrapping_mul(k)).collect()))
        .boxed()
}
fn ops(ids: u16, long: bool) -> BoxedStrategy<Op> {
    let times = if long { prop_oneof![8 => Just(1u16), 1 => 2u16..50, 1 => 1000u16..2600, 1 => dict::ints(20_000).prop_map(|n| n as u16), 1 => prop_oneof![9 => 50u16..200, 1 => 4000u16..20_000]].boxed() } else { Just(1u16).boxed() };
    prop_oneof![
        4 => (0..ids).prop_map(Op::Add),
        1 => (0..ids).prop_map(Op::Remove),
        1 => (0..ids).prop_map(Op::DropStream),
        10 => (0..ids, alias(), form(), prop_oneof![12 => content(0..40), 2 => content(1200..1500), 1 => huge_body(), dict::weight() / 4 => dict_len(2000)], times).prop_map(|(id, alias, form, body, times)| Op::Arrive { id, alias, form, body, times }),
        1 => (0..ids, form(), any::<u16>()).prop_map(|(id, form, at)| Op::Cut { id, form, at }),
        1 => content(0..40).prop_map(Op::Raw),
        1 => (0..ids).prop_map(Op::Drain),
    ]
    .boxed()
}
fn history(n: std::ops::Range<usize>, long: bool) -> BoxedStrategy<History> {
    (ids(), vec((0u16..6).prop_map(Op::Add), 0..4), vec(ops(6, long), n))
        .prop_map(|(ids, mut a, b)| {
            a.extend(b);
            History { ids, ops: a }
        })
        .boxed()
}
/// many connections at once, in blocks of neighbouring ids or at random
fn crowd() -> BoxedStrategy<History> {
    (prop_oneof![3 => 20u16..300, 1 => 300u16..1500, 1 => dict::ints(1500).prop_map(|n| n.max(1) as u16)], any::<u64>(), prop::sample::select(vec![1u64, 0x1_0000_0001, 1 << 56, 0x9e37_79b9_7f4a_7c15, 0x100]), vec(ops(u16::MAX, false), 10..60), any::<bool>())
        .prop_map(|(n, a, step, more, sweep)| {
            let mut ids: Vec<u64> = (0..n as u64).map(|i| a.wrapping_add(step.wrapping_mul(i))).collect();
            ids.sort();
            ids.dedup();
            let n = ids.len() as u16;
            let mut ops: Vec<Op> = (0..n).map(Op::Add).collect();
            if sweep {
                // one datagram each, in another order
                ops.extend((0..n).map(|i| Op::Arrive { id: i.wrapping_mul(7919), alias: Alias::Exact, form: Form::Short { first: 0x40 }, body: Bytes(i.to_be_bytes().to_vec()), times: 1 }));
            }
            ops.extend(more);
            History { ids, ops }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("histories", "histories of adding, dropping (through the socket and by stream handles), arrivals in every header form for exact, similar and unknown ids, cut headers, raw bytes and draining, against a map of queues; non-trivial: three operations and a non-empty queue", 16_000, 400_000, || bx(history(1..30, false)), check),
        law("long-histories", "100 to 250 operations, as histories; non-trivial: three operations and a non-empty queue", 400, 10_000, || bx(history(100..250, false)), check),
        law("pauses", "histories in which a second or more passes; non-trivial: three operations and a non-empty queue", 1, 8, || bx(crate::pause::paused(history(6..20, false))), |c, o| crate::pause::with_pause(c, o, check)),
        law("crowds", "sockets with 20 to 1500 connections, then 10 to 60 operations; non-trivial: three operations and a non-empty queue", 60, 2_000, || bx(crowd()), check),
        law("bulk", "histories with bursts of up to 20000 datagrams; non-trivial: three operations and a non-empty queue", 300, 6_000, || bx(history(3..15, true)), check),
    ]
}
