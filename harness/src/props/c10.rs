//! Packets the library sends open at any conforming receiver.
use super::c03::{construct, constructible};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::model::packet::{open_long, Kind};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::Connection;
use quic_sea::verif::error::Error;
use quic_sea::verif::frame::{deserialize_frames, Frame};
use quic_sea::verif::packet::{PacketHandshake, PacketInitial};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Send {
    pub conn: Conn,
    pub initial: bool,
    pub token: Option<Bytes>,
    pub fs: Vec<F>,
    /// number to be sent and largest acknowledged
    pub pn: u64,
    pub ack: Option<u64>,
    /// where in [ack, pn) the receiver is, in 1/255
    pub seen: u8,
}
/// library frames for model frames
pub fn frames(fs: &[F]) -> Result<Vec<Frame>, String> {
    fs.iter()
        .map(|f| match construct(f) {
            Some(x) => Ok(x),
            None => {
                let b = W { f: f.clone(), w: vec![], off: false, len: true }.encode(false);
                let mut v = lib("deserialize_frames", deserialize_frames(&mut Bs::new(&b)))?;
                v.pop().ok_or_else(|| "no frame decoded".to_string())
            }
        })
        .collect()
}
pub enum Built {
    I(PacketInitial),
    H(PacketHandshake),
}
impl Built {
    pub fn pn(&self) -> u64 {
        match self {
            Built::I(p) => p.verif_packet_number(),
            Built::H(p) => p.verif_packet_number(),
        }
    }
    pub fn serialize(&self, c: &Connection) -> Result<Vec<u8>, Error> {
        match self {
            Built::I(p) => p.verif_serialize(c),
            Built::H(p) => p.verif_serialize(c),
        }
    }
}
pub fn make(initial: bool, fr: Vec<Frame>, token: Option<Vec<u8>>, c: &mut Connection) -> Result<Built, Error> {
    if initial {
        PacketInitial::new(fr, token, c).map(Built::I)
    } else {
        PacketHandshake::new(fr, c).map(Built::H)
    }
}

fn check(c: &Send, o: &mut Obs) -> Check {
    let space = if c.initial { INITIAL } else { HANDSHAKE };
    let kind = if c.initial { Kind::Initial } else { Kind::Handshake };
    let mut conn = c.conn.build()?;
    next_is(&mut conn, space, c.pn);
    conn.verif_set_largest_local_ack(sp(space), c.ack);
    let pl: Vec<u8> = encode_all(&c.fs.iter().map(|f| W { f: f.clone(), w: vec![], off: false, len: true }).collect::<Vec<_>>());
    let fr = frames(&c.fs)?;
    let token = if c.initial { c.token.as_ref().map(|t| t.0.clone()) } else { None };
    let built = guard("building a packet", || make(c.initial, fr, token, &mut conn))?;

    // when refusing is right
    let far = match c.ack {
        None => c.pn > u32::MAX as u64,
        Some(a) => c.pn <= a || c.pn - a >= 1 << 31,
    };
    let may_refuse = far || pl.len() < 4 || c.fs.iter().any(|f| !allowed(kind, f));
    let must_refuse = c.conn.scid.is_none() || c.conn.local_keys(space).is_none() || pl.is_empty();
    let bytes = match built {
        Err(e) => {
            o.label("refused when built");
            return ensure(may_refuse || must_refuse, || format!("a representable packet was refused: {e:?}"));
        }
        Ok(p) => {
            let b = match guard("serializing a packet", || p.serialize(&conn))? {
                Err(e) => {
                    o.label("refused when serialised");
                    return ensure(may_refuse || must_refuse, || format!("a representable packet was refused: {e:?}"));
                }
                Ok(b) => b,
            };
            let again = lib("serialize", guard("serializing a packet again", || p.serialize(&conn))?)?;
            ensure(again == b, || "serialising the packet again gives different bytes".into())?;
            ensure(p.pn() == c.pn, || format!("packet number {} used, {} was next", p.pn(), c.pn))?;
            b
        }
    };
    if c.conn.scid.is_none() || c.conn.local_keys(space).is_none() {
        return Err("a packet was emitted without a source id or keys".into());
    }
    // receivers that may exist: anything from the acknowledged number up to just below this one
    let lo = c.ack.unwrap_or(0);
    let mut seen = vec![];
    if c.pn > lo {
        let span = c.pn - 1 - lo;
        seen.extend([Some(lo), Some(c.pn - 1), Some(lo + (span as u128 * c.seen as u128 / 255) as u64)]);
    }
    if c.ack.is_none() {
        seen.push(None);
        if c.pn == 0 {
            seen = vec![None];
        }
    }
    let k = c.conn.local_keys(space).unwrap();
    for largest in seen {
        o.evals(1);
        let got = open_long(&bytes, &k, largest).map_err(|e| {
            format!("a receiver that has seen {largest:?} rejects packet {} (acknowledged {:?}): {e}; {}", c.pn, c.ack, hex(&bytes[..bytes.len().min(80)]))
        })?;
        ensure(got.kind == kind, || format!("sent {kind:?}, receiver sees {:?}", got.kind))?;
        ensure(got.version == 1, || format!("version {:#x}", got.version))?;
        ensure(got.dcid == c.conn.cid, || format!("destination id {:?} not {:?}", got.dcid, c.conn.cid))?;
        ensure(Some(&got.scid) == c.conn.scid.as_ref(), || format!("source id {:?} not {:?}", got.scid, c.conn.scid))?;
        let want_token = if c.initial { c.token.clone().unwrap_or_default() } else { Bytes::default() };
        ensure(got.token == want_token, || format!("token of {} bytes, {} given", got.token.len(), want_token.len()))?;
        ensure(got.pn == c.pn, || format!("receiver reads packet number {} not {}", got.pn, c.pn))?;
        ensure(got.consumed == bytes.len(), || format!("length field ends the packet at {} of {} bytes", got.consumed, bytes.len()))?;
        same_frames(&parse_frames(&got.payload)?, &c.fs)?;
        o.label(["", "pn_len=1", "pn_len=2", "pn_len=3", "pn_len=4"][got.pn_len]);
    }
    o.nontrivial();
    o.label(if c.initial { "Initial" } else { "Handshake" });
    o.label_if(c.initial && c.token.as_ref().map_or(false, |t| !t.is_empty()), "token");
    o.label_if(c.fs.iter().any(|f| !allowed(kind, f)), "frames of other packet types");
    Ok(())
}

/// (number, acknowledged): distances around every power of two, any absolute position
pub fn pn_ack() -> BoxedStrategy<(u64, Option<u64>)> {
    prop_oneof![
        2 => (1u64..1000).prop_map(|p| (p, None)),
        1 => prop_oneof![Just(0xffffffffu64), Just(0x100000000), Just(0x80000000), Just(0x7fffffff)].prop_map(|p| (p, None)),
        2 => (vi(), 1u64..300).prop_map(|(a, d)| {
            let a = a.min(VMAX - d);
            (a + d, Some(a))
        }),
        4 => (vi(), 0u32..33, -2i64..=2).prop_map(|(a, k, d)| {
            let dist = ((1i64 << k) + d).max(1) as u64;
            let a = a.min(VMAX - dist);
            (a + dist, Some(a))
        }),
        1 => (vi(), 1u64..1 << 31).prop_map(|(a, d)| {
            let a = a.min(VMAX - d);
            (a + d, Some(a))
        }),
        1 => (vi(), vi()).prop_map(|(p, a)| (p.max(1), Some(a))),
        1 => (vi(), dict::ints(1 << 33)).prop_map(|(a, d)| {
            let d = d.max(1);
            let a = a.min(VMAX - d);
            (a + d, Some(a))
        }),
    ]
    .boxed()
}
pub fn token() -> BoxedStrategy<Option<Bytes>> {
    option::of(prop_oneof![4 => content(0..40), 3 => content(60..70), 2 => content(250..260), 1 => content(1000..1200),
        1 => (16380usize..16390).prop_map(|n| Bytes(vec![0x3c; n])), dict::weight() / 4 => dict_len(2000)])
    .boxed()
}
/// data sizes dense where the length field changes width
fn sized() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (0usize..80).prop_map(|n| F::Crypto { off: 0, data: Bytes((0..n).map(|i| i as u8).collect()) }),
        1 => (16330usize..16390).prop_map(|n| F::Crypto { off: 0, data: Bytes((0..n).map(|i| (i * 7) as u8).collect()) }),
        1 => (900usize..1500).prop_map(|n| F::Crypto { off: 0, data: Bytes((0..n).map(|i| (i * 3) as u8).collect()) }),
    ]
    .boxed()
}
fn common_frames() -> BoxedStrategy<F> {
    prop_oneof![
        3 => sized(),
        2 => frame().prop_filter("allowed", |f| allowed(Kind::Initial, f)),
        1 => Just(F::Padding),
        1 => Just(F::Ping),
    ]
    .boxed()
}
pub fn fs() -> BoxedStrategy<Vec<F>> {
    prop_oneof![6 => vec(common_frames(), 1..4), 2 => vec(common_frames(), 0..2), 1 => vec(frame().prop_map(constructible), 1..4),
        1 => (vec(common_frames(), 1..3), 1usize..1200).prop_map(|(mut v, n)| { v.extend(std::iter::repeat(F::Padding).take(n)); v })]
    .boxed()
}
fn sends() -> BoxedStrategy<Send> {
    (prop_oneof![12 => send_conn(), 1 => some_conn()], any::<bool>(), token(), fs(), pn_ack(), any::<u8>(), (sizes(3000), 1usize..=4))
        .prop_map(|(conn, initial, token, mut fs, (pn, ack), seen, (size, pn_len))| {
            if let Some(size) = size {
                // padded to that size, for one packet number length
                let t = token.as_ref().map_or(0, |t| t.len());
                let tokens = if initial { t + if t < 64 { 1 } else { 2 } } else { 0 };
                let head = 7 + conn.cid.len() + conn.scid.as_ref().map_or(0, |s| s.len()) + tokens + 2 + pn_len + 16;
                let ws: Vec<W> = fs.iter().map(|f| W { f: f.clone(), w: vec![], off: false, len: true }).collect();
                let now = head + encode_all(&ws).len();
                fs.extend(std::iter::repeat(F::Padding).take(size.saturating_sub(now)));
            }
            Send { conn, initial, token, fs, pn, ack, seen }
        })
        .boxed()
}

/// unencodable frames never reach the wire
fn check_unencodable(c: &(Conn, bool, u64, u8), o: &mut Obs) -> Check {
    let (cn, initial, v, which) = c;
    let big = v | 1 << 62;
    let f = match which % 4 {
        0 => F::MaxData(big),
        1 => F::Close { code: big, frame_type: Some(0), reason: Bytes::default() },
        2 => F::ResetStream { id: 1, code: 2, size: big },
        _ => F::NewCid { seq: big, retire: 0, cid: Bytes(vec![1; 8]), token: Bytes(vec![2; 16]) },
    };
    let mut conn = cn.build()?;
    let fr = vec![Frame::Ping, construct(&f).unwrap(), Frame::Padding];
    o.nontrivial();
    let r = guard("building a packet", || make(*initial, fr, None, &mut conn))?.and_then(|p| guard("serializing", || p.serialize(&conn)).unwrap_or_else(|e| panic!("{e}")));
    ensure(r.is_err(), || format!("a packet with {f:?} was serialised"))
}

/// a step on a connection that builds packets now and serialises them later
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Step {
    Build { initial: bool, token: Option<Bytes>, fs: Vec<F> },
    /// numbers that are used up without a packet
    Skip { initial: bool, n: u16 },
    /// the peer acknowledges the number handed out `back` numbers ago
    Ack { initial: bool, back: u8 },
    /// serialises a packet built earlier
    Emit(u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Deferred {
    conn: Conn,
    /// first numbers of the two spaces, and how far back the peer has acknowledged
    start: [(u64, Option<u64>); 2],
    steps: Vec<Step>,
}
struct Pending {
    built: Built,
    space: usize,
    pn: u64,
    token: Bytes,
    fs: Vec<F>,
    /// acknowledged when it was built
    ack: Option<u64>,
    out: Option<Vec<u8>>,
}
fn emit(c: &Deferred, conn: &Connection, p: &mut Pending, now: Option<u64>, o: &mut Obs) -> Check {
    let b = lib("serialize", guard("serializing a packet", || p.built.serialize(conn))?).map_err(|e| format!("packet {} of space {}, built when {:?} was acknowledged, serialised when {now:?} was: {e}", p.pn, p.space, p.ack))?;
    // receivers that may exist now: they have what was acknowledged, and nothing newer than this packet unless acknowledged
    let mut seen = vec![];
    match now {
        Some(a) if a > p.pn => {
            // a late packet opens while its number is inside the smallest window
            if a - p.pn < 100 {
                seen.push(Some(a));
            }
        }
        Some(a) => seen.extend([Some(a), Some(p.pn - 1)]),
        None => {
            seen.extend([None]);
            if p.pn > 0 {
                seen.extend([Some(0), Some(p.pn - 1)]);
            }
        }
    }
    let k = c.conn.local_keys(p.space).ok_or("no keys")?;
    for largest in seen {
        o.evals(1);
        let got = open_long(&b, &k, largest).map_err(|e| format!("a receiver that has seen {largest:?} rejects packet {} built when {:?} was acknowledged: {e}", p.pn, p.ack))?;
        ensure(got.pn == p.pn, || format!("receiver at {largest:?} reads packet number {} not {}", got.pn, p.pn))?;
        ensure(space_of(got.kind) == p.space, || format!("receiver sees {:?}", got.kind))?;
        ensure(got.dcid == c.conn.cid && Some(&got.scid) == c.conn.scid.as_ref(), || format!("ids {:?} {:?}", got.dcid, got.scid))?;
        ensure(got.token == p.token, || format!("token {:?}, {:?} given", got.token, p.token))?;
        ensure(got.consumed == b.len(), || format!("length field ends the packet at {} of {} bytes", got.consumed, b.len()))?;
        same_frames(&parse_frames(&got.payload)?, &p.fs)?;
    }
    p.out = Some(b);
    Ok(())
}
fn check_deferred(c: &Deferred, o: &mut Obs) -> Check {
    let mut conn = c.conn.build()?;
    let mut last = [0u64; 2];
    let mut ack = [None; 2];
    for i in [INITIAL, HANDSHAKE] {
        let (pn, back) = c.start[i];
        next_is(&mut conn, i, pn);
        last[i] = pn - 1;
        ack[i] = back.and_then(|b| (pn - 1).checked_sub(b));
        conn.verif_set_largest_local_ack(sp(i), ack[i]);
    }
    let mut ps: Vec<Pending> = vec![];
    let mut late = 0;
    for s in &c.steps {
        crate::pause::step();
        match s {
            Step::Build { initial, token, fs } => {
                let space = if *initial { INITIAL } else { HANDSHAKE };
                let fr = frames(fs)?;
                let token = if *initial { token.clone() } else { None };
                let far = ack[space].is_none() && last[space] + 1 > u32::MAX as u64;
                let r = guard("building a packet", || make(*initial, fr, token.as_ref().map(|t| t.0.clone()), &mut conn))?;
                last[space] += 1;
                if far {
                    continue;
                }
                let built = lib("building a packet", r)?;
                ensure(built.pn() == last[space], || format!("packet number {} used, {} was next", built.pn(), last[space]))?;
                ps.push(Pending { built, space, pn: last[space], token: token.unwrap_or_default(), fs: fs.clone(), ack: ack[space], out: None });
            }
            Step::Skip { initial, n } => {
                let space = if *initial { INITIAL } else { HANDSHAKE };
                for _ in 0..*n {
                    let _ = guard("get_next_pn", || conn.get_next_pn(sp(space)))?;
                }
                last[space] += *n as u64;
            }
            Step::Ack { initial, back } => {
                let space = if *initial { INITIAL } else { HANDSHAKE };
                if let Some(a) = last[space].checked_sub(*back as u64) {
                    if a >= c.start[space].0 && ack[space].map_or(true, |x| a > x) {
                        ack[space] = Some(a);
                        conn.verif_set_largest_local_ack(sp(space), ack[space]);
                    }
                }
            }
            Step::Emit(i) => {
                if !ps.is_empty() {
                    let i = *i as usize % ps.len();
                    late += (i + 1 < ps.len() || ps[i].ack != ack[ps[i].space]) as u32;
                    let now = ack[ps[i].space];
                    emit(c, &conn, &mut ps[i], now, o)?;
                }
            }
        }
    }
    for p in ps.iter_mut().rev().filter(|p| p.out.is_none()) {
        late += 1;
        let now = ack[p.space];
        emit(c, &conn, p, now, o)?;
    }
    o.label_if(late > 3, "many serialised late");
    o.label_if(ps.iter().any(|p| ack[p.space].map_or(false, |a| a > p.pn)), "newer number acknowledged");
    o.nontrivial_if(late > 0 && ps.len() > 1);
    Ok(())
}
fn deferred() -> BoxedStrategy<Deferred> {
    let small = || vec(prop_oneof![2 => (0usize..60).prop_map(|n| F::Crypto { off: 0, data: Bytes((0..n).map(|i| i as u8).collect()) }), 1 => Just(F::Ping), 1 => frame().prop_filter("allowed", |f| allowed(Kind::Initial, f))], 1..4).prop_map(|mut v| {
        // long enough to be sampled whatever the number's length
        v.extend([F::Padding, F::Padding, F::Padding]);
        v
    });
    let step = prop_oneof![
        6 => (any::<bool>(), option::of(content(0..20)), small()).prop_map(|(initial, token, fs)| Step::Build { initial, token, fs }),
        1 => (any::<bool>(), prop_oneof![3 => 1u16..10, 1 => 100u16..400]).prop_map(|(initial, n)| Step::Skip { initial, n }),
        4 => (any::<bool>(), prop_oneof![3 => 0u8..4, 1 => any::<u8>()]).prop_map(|(initial, back)| Step::Ack { initial, back }),
        3 => any::<u8>().prop_map(Step::Emit),
    ];
    let start = || (prop_oneof![2 => 1u64..400, 1 => 60_000u64..70_000, 2 => vi().prop_map(|v| v.clamp(1, VMAX - 100_000))], option::of(prop_oneof![3 => 0u64..300, 1 => 0u64..70_000, 1 => dict::ints(1 << 24)]));
    (full_conn(), [start(), start()], vec(step, 2..24)).prop_map(|(conn, start, steps)| Deferred { conn, start, steps }).boxed()
}

/// a connection that sends very many packets
fn check_long(c: &(Conn, Vec<(bool, Vec<F>)>, u16, u16), o: &mut Obs) -> Check {
    let (cn, kinds, n, every) = c;
    let mut conn = cn.build()?;
    let mut sent = [0u64; 2];
    let mut ack: [Option<u64>; 2] = [None; 2];
    o.nontrivial_if(*n > 100);
    o.label_if(*n > 1000, "over 1000 packets");
    for i in 0..*n {
        let (initial, fs) = &kinds[i as usize % kinds.len()];
        let space = if *initial { INITIAL } else { HANDSHAKE };
        let fr = frames(fs)?;
        let p = lib("building a packet", guard("building a packet", || make(*initial, fr, None, &mut conn))?).map_err(|e| format!("packet {i}: {e}"))?;
        let b = lib("serialize", guard("serializing a packet", || p.serialize(&conn))?).map_err(|e| format!("packet {i}: {e}"))?;
        o.evals(1);
        let pn = p.pn();
        ensure(pn > sent[space], || format!("packet {i} has number {pn} after {}", sent[space]))?;
        let got = open_long(&b, &cn.local_keys(space).unwrap(), ack[space]).map_err(|e| format!("packet {i}, number {pn}, acknowledged {:?}: {e}", ack[space]))?;
        ensure(got.pn == pn, || format!("packet {i}: receiver at {:?} reads number {} not {pn}", ack[space], got.pn))?;
        ensure(space_of(got.kind) == space && got.dcid == cn.cid && Some(&got.scid) == cn.scid.as_ref() && got.consumed == b.len(), || format!("packet {i}: header {got:?}"))?;
        same_frames(&parse_frames(&got.payload)?, fs).map_err(|e| format!("packet {i}: {e}"))?;
        sent[space] = pn;
        if *every > 0 && i % every == 0 {
            ack[space] = Some(pn);
            conn.verif_set_largest_local_ack(sp(space), ack[space]);
        }
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("receiver", "Initial and Handshake packets over any ids, token, frames, packet number and acknowledgement, opened by the reference receiver at up to three receive positions; non-trivial: a packet was emitted and opened", 12_000, 300_000, || bx(sends()), check),
        sweep("id-lengths", "every pair of connection id lengths 0..20 for both packet types, enumerated; non-trivial: emitted and opened", |_| {
            Box::new((0usize..=20).flat_map(|d| {
                (0usize..=20).flat_map(move |s| {
                    [false, true].into_iter().map(move |initial| Send {
                        conn: Conn {
                            server: (d + s) % 2 == 0,
                            cid: Bytes((0..d).map(|i| i as u8 ^ 0x80).collect()),
                            scid: Some(Bytes((0..s).map(|i| 0xf0 | i as u8).collect())),
                            hs: Some((Bytes(vec![d as u8; 32]), Bytes(vec![s as u8 + 100; 32]))),
                            app: None,
                            largest: [None; 3],
                            miss: [0; 2],
                        },
                        initial,
                        token: if d % 3 == 0 { None } else { Some(Bytes(vec![7; d * s])) },
                        fs: vec![F::Ping, F::Crypto { off: 0, data: Bytes(vec![1; d + s]) }],
                        pn: 1 + (d * 21 + s) as u64,
                        ack: if s % 2 == 0 { None } else { Some(0) },
                        seen: 128,
                    })
                })
            }))
        }, check),
        sweep("payload-sizes", "every payload size from 0 to 130 bytes and around 2^14 with every packet-number length, enumerated; non-trivial: emitted and opened", |_| {
            Box::new((0usize..130).chain(16340..16390).flat_map(|n| {
                [1u64, 200, 70_000, 20_000_000].into_iter().flat_map(move |d| {
                    [false, true].into_iter().map(move |initial| Send {
                        conn: Conn {
                            server: false,
                            cid: Bytes(vec![9; 8]),
                            scid: Some(Bytes(vec![8; 8])),
                            hs: Some((Bytes(vec![1; 32]), Bytes(vec![2; 32]))),
                            app: None,
                            largest: [None; 3],
                            miss: [0; 2],
                        },
                        initial,
                        token: None,
                        fs: vec![F::Padding; n],
                        pn: 1000 + d,
                        ack: Some(1000),
                        seen: 0,
                    })
                })
            }))
        }, check),
        law("large", "packets of up to 65535 bytes, in their frames, their token or both; non-trivial: a packet was emitted and opened", 60, 3_000, || {
            bx((sends(), huge(65_400), any::<u8>(), vi()).prop_map(|(mut s, mut data, how, off)| {
                if how % 3 == 0 && s.initial {
                    let t = data.0.split_off(data.len() / (1 + how as usize / 50));
                    s.token = Some(Bytes(t));
                }
                s.fs.retain(|f| *f != F::Padding);
                s.fs.truncate(2);
                s.fs.insert(how as usize % (s.fs.len() + 1), F::Crypto { off: off.min(VMAX - data.len() as u64), data });
                s
            }))
        }, check),
        law("deferred", "packets of both types built on one connection and serialised later, in another order, with acknowledgements and further numbers in between; non-trivial: two or more packets and one of them late", 4_000, 100_000, || bx(deferred()), check_deferred),
        law("pauses", "packets serialised later, after a second or more; non-trivial: two or more packets and one of them late", 1, 8, || bx(crate::pause::paused(deferred())), |c, o| crate::pause::with_pause(c, o, check_deferred)),
        law("long-lived", "100 to 6000 packets from one connection, with acknowledgements now and then; non-trivial: over 100", 4, 150, || {
            bx((full_conn(), vec((any::<bool>(), vec(prop_oneof![2 => (0usize..60).prop_map(|n| F::Crypto { off: 0, data: Bytes((0..n).map(|i| i as u8).collect()) }), 1 => Just(F::Ping)], 1..3).prop_map(|mut v| {
                v.extend([F::Padding, F::Padding, F::Padding]);
                v
            })), 1..6), prop_oneof![3 => 100u16..1000, 1 => 1000u16..6000, 1 => dict::ints(6000).prop_map(|n| n.saturating_add(2) as u16)], prop_oneof![1 => Just(0u16), 2 => 1u16..200, 1 => 200u16..2000]))
        }, check_long),
        law("unencodable", "packets holding a frame with a value above 2^62-1; all non-trivial", 2_000, 40_000, || bx((full_conn(), any::<bool>(), u64s(), 0u8..4)), check_unencodable),
    ]
}
