//! RFC 9000 section 19 frames.
use super::varint::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum F {
    Padding,
    Ping,
    Ack { largest: u64, delay: u64, first: u64, ranges: Vec<(u64, u64)>, ecn: Option<(u64, u64, u64)> },
    ResetStream { id: u64, code: u64, size: u64 },
    StopSending { id: u64, code: u64 },
    Crypto { off: u64, data: Bytes },
    NewToken { token: Bytes },
    Stream { id: u64, off: u64, data: Bytes, fin: bool },
    MaxData(u64),
    MaxStreamData { id: u64, max: u64 },
    MaxStreams { max: u64, uni: bool },
    DataBlocked(u64),
    StreamDataBlocked { id: u64, max: u64 },
    StreamsBlocked { max: u64, uni: bool },
    NewCid { seq: u64, retire: u64, cid: Bytes, token: Bytes },
    RetireCid(u64),
    PathChallenge(u64),
    PathResponse(u64),
    Close { code: u64, frame_type: Option<u64>, reason: Bytes },
    HandshakeDone,
}

/// A frame with the freedom a sender has in writing it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct W {
    pub f: F,
    /// varint width choices, used cyclically
    pub w: Vec<u8>,
    /// STREAM: write the offset even when it is 0
    pub off: bool,
    /// STREAM: write the length
    pub len: bool,
}

struct Enc<'a> {
    out: Vec<u8>,
    w: &'a [u8],
    i: usize,
}
impl Enc<'_> {
    fn v(&mut self, v: u64) {
        let sel = if self.w.is_empty() { 0 } else { self.w[self.i % self.w.len()] };
        self.i += 1;
        self.out.extend(enc_w(v, pick_width(v, sel)));
    }
    fn b(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b)
    }
}

impl W {
    pub fn encode(&self, last: bool) -> Vec<u8> {
        let mut e = Enc { out: vec![], w: &self.w, i: 0 };
        match &self.f {
            F::Padding => e.b(&[0]),
            F::Ping => e.b(&[1]),
            F::Ack { largest, delay, first, ranges, ecn } => {
                e.b(&[if ecn.is_some() { 3 } else { 2 }]);
                e.v(*largest);
                e.v(*delay);
                e.v(ranges.len() as u64);
                e.v(*first);
                for (g, l) in ranges {
                    e.v(*g);
                    e.v(*l);
                }
                if let Some((a, b, c)) = ecn {
                    e.v(*a);
                    e.v(*b);
                    e.v(*c);
                }
            }
            F::ResetStream { id, code, size } => {
                e.b(&[4]);
                e.v(*id);
                e.v(*code);
                e.v(*size);
            }
            F::StopSending { id, code } => {
                e.b(&[5]);
                e.v(*id);
                e.v(*code);
            }
            F::Crypto { off, data } => {
                e.b(&[6]);
                e.v(*off);
                e.v(data.len() as u64);
                e.b(data);
            }
            F::NewToken { token } => {
                e.b(&[7]);
                e.v(token.len() as u64);
                e.b(token);
            }
            F::Stream { id, off, data, fin } => {
                let has_off = self.off || *off != 0;
                let has_len = self.len || !last;
                e.b(&[8 | (has_off as u8) << 2 | (has_len as u8) << 1 | *fin as u8]);
                e.v(*id);
                if has_off {
                    e.v(*off);
                }
                if has_len {
                    e.v(data.len() as u64);
                }
                e.b(data);
            }
            F::MaxData(v) => {
                e.b(&[0x10]);
                e.v(*v);
            }
            F::MaxStreamData { id, max } => {
                e.b(&[0x11]);
                e.v(*id);
                e.v(*max);
            }
            F::MaxStreams { max, uni } => {
                e.b(&[0x12 + *uni as u8]);
                e.v(*max);
            }
            F::DataBlocked(v) => {
                e.b(&[0x14]);
                e.v(*v);
            }
            F::StreamDataBlocked { id, max } => {
                e.b(&[0x15]);
                e.v(*id);
                e.v(*max);
            }
            F::StreamsBlocked { max, uni } => {
                e.b(&[0x16 + *uni as u8]);
                e.v(*max);
            }
            F::NewCid { seq, retire, cid, token } => {
                e.b(&[0x18]);
                e.v(*seq);
                e.v(*retire);
                e.b(&[cid.len() as u8]);
                e.b(cid);
                e.b(token);
            }
            F::RetireCid(v) => {
                e.b(&[0x19]);
                e.v(*v);
            }
            F::PathChallenge(v) => {
                e.b(&[0x1a]);
                e.b(&v.to_be_bytes());
            }
            F::PathResponse(v) => {
                e.b(&[0x1b]);
                e.b(&v.to_be_bytes());
            }
            F::Close { code, frame_type, reason } => {
                e.b(&[if frame_type.is_some() { 0x1c } else { 0x1d }]);
                e.v(*code);
                if let Some(t) = frame_type {
                    e.v(*t);
                }
                e.v(reason.len() as u64);
                e.b(reason);
            }
            F::HandshakeDone => e.b(&[0x1e]),
        }
        e.out
    }
}

pub fn encode_all(ws: &[W]) -> Vec<u8> {
    let n = ws.len();
    ws.iter().enumerate().flat_map(|(i, w)| w.encode(i + 1 == n)).collect()
}
pub fn frames_of(ws: &[W]) -> Vec<F> {
    ws.iter().map(|w| w.f.clone()).collect()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// the bytes are these frames
    Accept(Vec<F>),
    /// syntactically these frames, but RFC 9000 lets or makes a receiver refuse them
    Either(Vec<F>),
    Reject(&'static str),
}

pub struct Parsed {
    pub f: F,
    pub has_len: bool,
    pub refusable: bool,
}

/// Parses one frame.
pub fn parse_one(r: &mut Rd) -> Result<Parsed, &'static str> {
    const CUT: &str = "cut short";
    let s = |_: Short| CUT;
    let (t, tw) = r.varint_w().map_err(s)?;
    let mut refusable = tw != 1;
    let mut has_len = true;
    let f = match t {
        0 => F::Padding,
        1 => F::Ping,
        2 | 3 => {
            let largest = r.varint().map_err(s)?;
            let delay = r.varint().map_err(s)?;
            let count = r.varint().map_err(s)?;
            let first = r.varint().map_err(s)?;
            let mut ranges = vec![];
            let mut low: i128 = largest as i128 - first as i128;
            for _ in 0..count {
                let g = r.varint().map_err(s)?;
                let l = r.varint().map_err(s)?;
                if low < 0 {
                    refusable = true
                }
                low -= g as i128 + 2 + l as i128;
                ranges.push((g, l));
            }
            if low < 0 {
                refusable = true
            }
            let ecn = if t == 3 {
                Some((r.varint().map_err(s)?, r.varint().map_err(s)?, r.varint().map_err(s)?))
            } else {
                None
            };
            F::Ack { largest, delay, first, ranges, ecn }
        }
        4 => F::ResetStream { id: r.varint().map_err(s)?, code: r.varint().map_err(s)?, size: r.varint().map_err(s)? },
        5 => F::StopSending { id: r.varint().map_err(s)?, code: r.varint().map_err(s)? },
        6 => {
            let off = r.varint().map_err(s)?;
            let len = r.varint().map_err(s)?;
            let data = Bytes(r.take(len).map_err(s)?.to_vec());
            refusable |= off + len > VMAX;
            F::Crypto { off, data }
        }
        7 => {
            let len = r.varint().map_err(s)?;
            let token = Bytes(r.take(len).map_err(s)?.to_vec());
            refusable |= len == 0;
            F::NewToken { token }
        }
        8..=15 => {
            let id = r.varint().map_err(s)?;
            let off = if t & 4 != 0 { r.varint().map_err(s)? } else { 0 };
            has_len = t & 2 != 0;
            let len = if has_len { r.varint().map_err(s)? } else { r.left() as u64 };
            let data = Bytes(r.take(len).map_err(s)?.to_vec());
            refusable |= off + len > VMAX;
            F::Stream { id, off, data, fin: t & 1 != 0 }
        }
        0x10 => F::MaxData(r.varint().map_err(s)?),
        0x11 => F::MaxStreamData { id: r.varint().map_err(s)?, max: r.varint().map_err(s)? },
        0x12 | 0x13 => {
            let max = r.varint().map_err(s)?;
            refusable |= max > 1 << 60;
            F::MaxStreams { max, uni: t == 0x13 }
        }
        0x14 => F::DataBlocked(r.varint().map_err(s)?),
        0x15 => F::StreamDataBlocked { id: r.varint().map_err(s)?, max: r.varint().map_err(s)? },
        0x16 | 0x17 => {
            let max = r.varint().map_err(s)?;
            refusable |= max > 1 << 60;
            F::StreamsBlocked { max, uni: t == 0x17 }
        }
        0x18 => {
            let seq = r.varint().map_err(s)?;
            let retire = r.varint().map_err(s)?;
            let len = r.u8().map_err(s)?;
            if len < 1 || len > 20 {
                return Err("connection id length");
            }
            refusable |= retire > seq;
            let cid = Bytes(r.take(len as u64).map_err(s)?.to_vec());
            let token = Bytes(r.take(16).map_err(s)?.to_vec());
            F::NewCid { seq, retire, cid, token }
        }
        0x19 => F::RetireCid(r.varint().map_err(s)?),
        0x1a => F::PathChallenge(r.uint(8).map_err(s)? as u64),
        0x1b => F::PathResponse(r.uint(8).map_err(s)? as u64),
        0x1c | 0x1d => {
            let code = r.varint().map_err(s)?;
            let frame_type = if t == 0x1c { Some(r.varint().map_err(s)?) } else { None };
            let len = r.varint().map_err(s)?;
            F::Close { code, frame_type, reason: Bytes(r.take(len).map_err(s)?.to_vec()) }
        }
        0x1e => F::HandshakeDone,
        _ => return Err("unknown type"),
    };
    Ok(Parsed { f, has_len, refusable })
}

pub fn parse(b: &[u8]) -> Verdict {
    let mut r = Rd::new(b);
    let mut out = vec![];
    let mut refusable = false;
    while r.left() > 0 {
        match parse_one(&mut r) {
            Ok(p) => {
                refusable |= p.refusable;
                out.push(p.f)
            }
            Err(e) => return Verdict::Reject(e),
        }
    }
    if refusable {
        Verdict::Either(out)
    } else {
        Verdict::Accept(out)
    }
}
/// frames of a payload that must parse, ignoring receiver discretion
pub fn parse_frames(b: &[u8]) -> Result<Vec<F>, String> {
    match parse(b) {
        Verdict::Accept(f) | Verdict::Either(f) => Ok(f),
        Verdict::Reject(e) => Err(format!("an RFC 9000 parser rejects {}: {e}", hex(b))),
    }
}

// ---- generators of well-formed frames -------------------------------------------------------

fn ack() -> BoxedStrategy<F> {
    // mostly short; around 64; and, rarely, long enough to need a two-byte
    // count and to pass 256, 512 and 1024 (those need small steps, or they run
    // out of packet numbers)
    let n = prop_oneof![
        24 => (0usize..5, any::<bool>()),
        6 => (60usize..70, any::<bool>()),
        3 => (0usize..200, any::<bool>()),
        1 => (prop_oneof![250usize..262, 505usize..520, 200usize..1300], Just(true)),
        crate::dict::weight() / 4 => (crate::dict::lens(1300), Just(true)),
    ];
    n.prop_flat_map(|(n, small)| {
            let v = if small { (0u64..100).boxed() } else { vi() };
            let largest = if n > 100 { ((1u64 << 20)..=VMAX).boxed() } else { vi() };
            (largest, vi(), v.clone(), vec((v.clone(), v), n), option::of((vi(), vi(), vi())))
        })
        .prop_map(|(largest, delay, first, ranges, ecn)| {
            // constrain so that no acknowledged number is negative
            let first = first.min(largest);
            let mut low = largest - first;
            let mut out = vec![];
            for (g, l) in ranges {
                if low < 2 {
                    break;
                }
                let g = g.min(low - 2);
                low -= g + 2;
                let l = l.min(low);
                low -= l;
                out.push((g, l));
            }
            F::Ack { largest, delay, first, ranges: out, ecn }
        })
        .boxed()
}

fn fit(off: u64, n: usize) -> u64 {
    off.min(VMAX - n as u64)
}

/// Moves a frame past a limit a receiver may enforce without the wire format requiring it
/// (stream counts above 2^60, retiring past the sequence number, an empty token, data past
/// 2^62-1, acknowledged numbers below 0). Frames without such a limit stay as they are.
pub fn loosen(f: F, v: u64) -> F {
    match f {
        F::MaxStreams { max, uni } => F::MaxStreams { max: (max ^ v | 1 << 60) & VMAX, uni },
        F::StreamsBlocked { max, uni } => F::StreamsBlocked { max: (max ^ v | 1 << 60) & VMAX, uni },
        F::NewCid { seq, cid, token, .. } => F::NewCid { seq, retire: seq.saturating_add(v).min(VMAX), cid, token },
        F::NewToken { .. } if v % 4 == 0 => F::NewToken { token: Bytes(vec![]) },
        F::Crypto { data, .. } => F::Crypto { off: VMAX - v % 70, data },
        F::Stream { id, data, fin, .. } => F::Stream { id, off: VMAX - v % 70, data, fin },
        F::Ack { largest, delay, mut ranges, ecn, first } => {
            if v % 3 == 0 {
                ranges.push((v, largest));
            } else if v % 3 == 1 {
                ranges.insert(0, (largest, v));
            }
            let first = if v % 3 == 2 { largest.saturating_add(v).min(VMAX) } else { first };
            F::Ack { largest, delay, first, ranges, ecn }
        }
        f => f,
    }
}

/// A single well-formed frame whose data comes from `data`.
pub fn frame_with(data: fn() -> BoxedStrategy<Bytes>) -> BoxedStrategy<F> {
    prop_oneof![
        1 => Just(F::Padding),
        1 => Just(F::Ping),
        4 => ack(),
        2 => (vi(), vi(), vi()).prop_map(|(id, code, size)| F::ResetStream { id, code, size }),
        2 => (vi(), vi()).prop_map(|(id, code)| F::StopSending { id, code }),
        4 => (vi(), data()).prop_map(|(off, data)| F::Crypto { off: fit(off, data.len()), data }),
        2 => data().prop_map(|mut token| {
            if token.is_empty() { token.0.push(0x55) }
            F::NewToken { token }
        }),
        5 => (vi(), prop_oneof![1 => Just(0u64), 3 => vi()], data(), any::<bool>())
            .prop_map(|(id, off, data, fin)| F::Stream { id, off: fit(off, data.len()), data, fin }),
        2 => vi().prop_map(F::MaxData),
        2 => (vi(), vi()).prop_map(|(id, max)| F::MaxStreamData { id, max }),
        2 => (vi(), any::<bool>()).prop_map(|(v, uni)| F::MaxStreams { max: v.min(1 << 60), uni }),
        2 => vi().prop_map(F::DataBlocked),
        2 => (vi(), vi()).prop_map(|(id, max)| F::StreamDataBlocked { id, max }),
        2 => (vi(), any::<bool>()).prop_map(|(v, uni)| F::StreamsBlocked { max: v.min(1 << 60), uni }),
        4 => (vi(), vi(), (1usize..=20).prop_flat_map(|n| cid(n..=n)), cid(16..=16))
            .prop_map(|(seq, retire, cid, token)| F::NewCid { seq, retire: retire.min(seq), cid, token }),
        2 => vi().prop_map(F::RetireCid),
        2 => u64s().prop_map(F::PathChallenge),
        2 => u64s().prop_map(F::PathResponse),
        3 => (vi(), option::of(vi()), data()).prop_map(|(code, frame_type, reason)| F::Close { code, frame_type, reason }),
        1 => Just(F::HandshakeDone),
    ]
    .boxed()
}
pub fn frame() -> BoxedStrategy<F> {
    frame_with(big_bytes)
}
fn small_bytes() -> BoxedStrategy<Bytes> {
    content(0..24)
}
fn widths() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![Just(vec![]), vec(0u8..4, 1..8)].boxed()
}
pub fn wframe() -> BoxedStrategy<W> {
    (frame(), widths(), any::<bool>(), any::<bool>()).prop_map(|(f, w, off, len)| W { f, w, off, len }).boxed()
}
pub fn small_wframe() -> BoxedStrategy<W> {
    (frame_with(small_bytes), widths(), any::<bool>(), any::<bool>())
        .prop_map(|(f, w, off, len)| W { f, w, off, len })
        .boxed()
}
pub fn wframes() -> BoxedStrategy<Vec<W>> {
    let w = crate::dict::weight();
    prop_oneof![36 => vec(wframe(), 1..2), 48 => vec(wframe(), 0..6), 12 => vec(small_wframe(), 0..40), w / 4 => crate::dict::lens(100).prop_flat_map(|n| vec(small_wframe(), n..=n))].boxed()
}
pub fn small_wframes() -> BoxedStrategy<Vec<W>> {
    prop_oneof![3 => vec(small_wframe(), 1..2), 4 => vec(small_wframe(), 0..5)].boxed()
}
pub fn kind(f: &F) -> &'static str {
    match f {
        F::Padding => "PADDING",
        F::Ping => "PING",
        F::Ack { ecn: None, .. } => "ACK",
        F::Ack { .. } => "ACK_ECN",
        F::ResetStream { .. } => "RESET_STREAM",
        F::StopSending { .. } => "STOP_SENDING",
        F::Crypto { .. } => "CRYPTO",
        F::NewToken { .. } => "NEW_TOKEN",
        F::Stream { .. } => "STREAM",
        F::MaxData(_) => "MAX_DATA",
        F::MaxStreamData { .. } => "MAX_STREAM_DATA",
        F::MaxStreams { .. } => "MAX_STREAMS",
        F::DataBlocked(_) => "DATA_BLOCKED",
        F::StreamDataBlocked { .. } => "STREAM_DATA_BLOCKED",
        F::StreamsBlocked { .. } => "STREAMS_BLOCKED",
        F::NewCid { .. } => "NEW_CONNECTION_ID",
        F::RetireCid(_) => "RETIRE_CONNECTION_ID",
        F::PathChallenge(_) => "PATH_CHALLENGE",
        F::PathResponse(_) => "PATH_RESPONSE",
        F::Close { .. } => "CONNECTION_CLOSE",
        F::HandshakeDone => "HANDSHAKE_DONE",
    }
}
