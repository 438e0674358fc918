//! Serialised frames are what an RFC 9000 parser reads back.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::model::varint::Rd;
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::frame as q;
use quic_sea::verif::frame::{deserialize_frames, serialize_frames, Frame};
use quic_sea::verif::utils::prelude::U160;
use serde::{Deserialize, Serialize};

/// A frame one of the constructors can make, possibly with unencodable values.
pub fn construct(f: &F) -> Option<Frame> {
    Some(match f {
        F::Padding => Frame::Padding,
        F::Ping => Frame::Ping,
        F::Ack { .. } => return None,
        F::ResetStream { id, code, size } => Frame::ResetStream(q::FrameResetStream::new(*id, *code, *size)),
        F::StopSending { id, code } => Frame::StopSending(q::FrameStopSending::new(*id, *code)),
        F::Crypto { off: 0, data } => Frame::Crypto(q::FrameCrypto::new(data.0.clone())),
        F::Crypto { .. } => return None,
        F::NewToken { token } => Frame::NewToken(q::FrameNewToken::new(token.0.clone())),
        F::Stream { id, off: 0, data, fin } => Frame::Stream(q::FrameStream::new(*id, data.0.clone(), *fin)),
        F::Stream { .. } => return None,
        F::MaxData(v) => Frame::MaxData(q::FrameMaxData::new(*v)),
        F::MaxStreamData { id, max } => Frame::MaxStreamData(q::FrameMaxStreamData::new(*id, *max)),
        F::MaxStreams { max, uni } => Frame::MaxStreams(q::FrameMaxStreams::new(*max, *uni)),
        F::DataBlocked(v) => Frame::DataBlocked(q::FrameDataBlocked::new(*v)),
        F::StreamDataBlocked { id, max } => Frame::StreamDataBlocked(q::FrameStreamDataBlocked::new(*id, *max)),
        F::StreamsBlocked { max, uni } => Frame::StreamsBlocked(q::FrameStreamsBlocked::new(*max, *uni)),
        F::NewCid { seq, retire, cid, token } if cid.len() == 8 => Frame::NewConnectionId(q::FrameNewConnectionId::new(
            *seq,
            *retire,
            U160::from(u64::from_be_bytes(cid[..].try_into().unwrap())),
            u128::from_be_bytes(token[..].try_into().unwrap()),
        )),
        F::NewCid { .. } => return None,
        F::RetireCid(v) => Frame::RetireConnectionId(q::FrameRetireConnectionId::new(*v)),
        F::PathChallenge(v) => Frame::PathChallenge(q::FramePathChallenge::new(*v)),
        F::PathResponse(v) => Frame::PathResponse(q::FramePathResponse::new(*v)),
        F::Close { code, frame_type: Some(t), reason } => Frame::ConnectionClose(q::FrameConnectionClose::new_error(*code, *t, reason.0.clone())),
        F::Close { code, frame_type: None, reason } => Frame::ConnectionClose(q::FrameConnectionClose::new_application_error(*code, reason.0.clone())),
        F::HandshakeDone => Frame::HandshakeDone,
    })
}
/// moves a frame into what the constructors can express
pub fn constructible(f: F) -> F {
    match f {
        F::Ack { largest, delay, .. } => F::StopSending { id: largest, code: delay },
        F::Crypto { data, .. } => F::Crypto { off: 0, data },
        F::Stream { id, data, fin, .. } => F::Stream { id, off: 0, data, fin },
        F::NewCid { seq, retire, cid, token } => {
            let mut c = cid.0;
            c.resize(8, 0x11);
            F::NewCid { seq, retire, cid: Bytes(c), token }
        }
        f => f,
    }
}
/// the varint fields of a frame, by position
fn overflow(f: F, which: u8, big: u64) -> (F, bool) {
    let big = big | 1 << 62;
    let mut hit = true;
    let f = match f {
        F::ResetStream { id, code, size } => match which % 3 {
            0 => F::ResetStream { id: big, code, size },
            1 => F::ResetStream { id, code: big, size },
            _ => F::ResetStream { id, code, size: big },
        },
        F::StopSending { id, code } => match which % 2 {
            0 => F::StopSending { id: big, code },
            _ => F::StopSending { id, code: big },
        },
        F::Stream { off, data, fin, .. } => F::Stream { id: big, off, data, fin },
        F::MaxData(_) => F::MaxData(big),
        F::MaxStreamData { id, max } => match which % 2 {
            0 => F::MaxStreamData { id: big, max },
            _ => F::MaxStreamData { id, max: big },
        },
        F::MaxStreams { uni, .. } => F::MaxStreams { max: big, uni },
        F::DataBlocked(_) => F::DataBlocked(big),
        F::StreamDataBlocked { id, max } => match which % 2 {
            0 => F::StreamDataBlocked { id: big, max },
            _ => F::StreamDataBlocked { id, max: big },
        },
        F::StreamsBlocked { uni, .. } => F::StreamsBlocked { max: big, uni },
        F::NewCid { seq, retire, cid, token } => match which % 2 {
            0 => F::NewCid { seq: big, retire, cid, token },
            _ => F::NewCid { seq, retire: big, cid, token },
        },
        F::RetireCid(_) => F::RetireCid(big),
        F::Close { code, frame_type: Some(t), reason } => match which % 2 {
            0 => F::Close { code: big, frame_type: Some(t), reason },
            _ => F::Close { code, frame_type: Some(big), reason },
        },
        F::Close { frame_type: None, reason, .. } => F::Close { code: big, frame_type: None, reason },
        f => {
            hit = false;
            f
        }
    };
    (f, hit)
}

fn label(o: &mut Obs, fs: &[F]) {
    for f in fs {
        o.label(kind(f))
    }
    o.nontrivial_if(fs.iter().any(|f| !matches!(f, F::Padding | F::Ping | F::HandshakeDone)));
}

/// checks serialised bytes against the frames they should hold
fn check_bytes(b: &[u8], want: &[F], end: bool) -> Check {
    let mut r = Rd::new(b);
    let mut got = vec![];
    let mut lens = vec![];
    while r.left() > 0 {
        let p = parse_one(&mut r).map_err(|e| format!("an RFC 9000 parser rejects the serialised frames ({e}): {}", hex(&b[..b.len().min(200)])))?;
        got.push(p.f);
        lens.push(p.has_len);
    }
    same_frames(&got, want)?;
    for (i, l) in lens.iter().enumerate() {
        ensure(*l || (end && i + 1 == lens.len()), || format!("STREAM frame {i} of {} has no length (ends datagram: {end})", lens.len()))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Built {
    fs: Vec<F>,
    end: bool,
}
fn check_built(c: &Built, o: &mut Obs) -> Check {
    label(o, &c.fs);
    let frames: Vec<Frame> = c.fs.iter().map(|f| construct(f).expect("constructible")).collect();
    let b = lib("serialize_frames", guard("serialize_frames", || serialize_frames(&frames, c.end))?)?;
    check_bytes(&b, &c.fs, c.end)?;
    let again = lib("serialize_frames", guard("serialize_frames", || serialize_frames(&frames, c.end))?)?;
    ensure(again == b, || "serialising the same frames twice gives different bytes".into())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Big {
    fs: Vec<F>,
    at: usize,
    which: u8,
    big: u64,
    end: bool,
}
/// a few frames over and over
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Repeated {
    before: Vec<F>,
    unit: Vec<F>,
    n: u32,
    after: Vec<F>,
    end: bool,
}
fn check_repeated(c: &Repeated, o: &mut Obs) -> Check {
    let mut fs = c.before.clone();
    for _ in 0..c.n as usize / c.unit.len().max(1) {
        fs.extend(c.unit.iter().cloned());
    }
    fs.extend(c.after.iter().cloned());
    o.label_if(fs.len() > 1500, "over 1500 frames");
    check_built(&Built { fs, end: c.end }, o)?;
    o.nontrivial_if(c.n > 0);
    Ok(())
}
fn repeated() -> BoxedStrategy<Repeated> {
    let some = |n| vec(frame().prop_map(constructible), n);
    let unit = prop_oneof![
        2 => prop::sample::select(vec![F::Padding, F::Ping, F::HandshakeDone]).prop_map(|f| vec![f]),
        2 => vec(prop_oneof![Just(F::Padding), vi().prop_map(F::MaxData), vi().prop_map(F::RetireCid), u64s().prop_map(F::PathChallenge), (0u64..70, 0usize..4).prop_map(|(id, n)| F::Stream { id, off: 0, data: Bytes(vec![7; n]), fin: false })], 1..4),
    ];
    (some(0..3), unit, prop_oneof![3 => 100u32..2000, 2 => 2000u32..70_000, 1 => dict::lens(70_000).prop_map(|n| n as u32)], some(0..3), any::<bool>())
        .prop_map(|(before, unit, n, after, end)| Repeated { before, unit, n, after, end })
        .boxed()
}
fn check_overflow(c: &Big, o: &mut Obs) -> Check {
    if c.fs.is_empty() {
        return Ok(());
    }
    let at = c.at % c.fs.len();
    let (f, hit) = overflow(c.fs[at].clone(), c.which, c.big);
    let mut fs = c.fs.clone();
    fs[at] = f;
    if !hit {
        return Ok(());
    }
    o.label(kind(&fs[at]));
    o.nontrivial();
    let frames: Vec<Frame> = fs.iter().map(|f| construct(f).expect("constructible")).collect();
    let r = guard("serialize_frames", || serialize_frames(&frames, c.end))?;
    ensure(r.is_err(), || format!("{:?} holds an unencodable value but was serialised", fs[at]))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Decoded {
    ws: Vec<W>,
    end: bool,
}
fn check_decoded(c: &Decoded, o: &mut Obs) -> Check {
    let fs = frames_of(&c.ws);
    label(o, &fs);
    let b = encode_all(&c.ws);
    let frames = lib("deserialize_frames", guard("deserialize_frames", || deserialize_frames(&mut Bs::new(&b)))?)?;
    let out = lib("serialize_frames", guard("serialize_frames", || serialize_frames(&frames, c.end))?)?;
    check_bytes(&out, &fs, c.end)
}

/// frames past a limit a receiver may enforce: refused, or serialised exactly
fn check_loose(c: &Big, o: &mut Obs) -> Check {
    if c.fs.is_empty() {
        return Ok(());
    }
    let mut fs = c.fs.clone();
    let at = c.at % fs.len();
    fs[at] = constructible(loosen(fs[at].clone(), c.big & VMAX));
    o.label(kind(&fs[at]));
    o.nontrivial_if(matches!(fs[at], F::MaxStreams { .. } | F::StreamsBlocked { .. } | F::NewCid { .. } | F::NewToken { .. }));
    let frames: Vec<Frame> = fs.iter().map(|f| construct(f).expect("constructible")).collect();
    match guard("serialize_frames", || serialize_frames(&frames, c.end))? {
        Ok(b) => check_bytes(&b, &fs, c.end)?,
        Err(_) => o.label("refused"),
    }
    // and the same values read from a peer
    let ws: Vec<W> = fs.iter().map(|f| W { f: f.clone(), w: vec![], off: true, len: true }).collect();
    if let Ok(frames) = guard("deserialize_frames", || deserialize_frames(&mut Bs::new(&encode_all(&ws))))? {
        if let Ok(b) = guard("serialize_frames", || serialize_frames(&frames, c.end))? {
            check_bytes(&b, &fs, c.end)?;
        }
    }
    Ok(())
}

fn cframes() -> BoxedStrategy<Vec<F>> {
    let one = || frame().prop_map(constructible);
    prop_oneof![3 => vec(one(), 1..2), 4 => vec(one(), 0..6), 1 => vec(one(), 0..30)].boxed()
}
/// one frame with data around 2^16 and above
pub fn huge() -> BoxedStrategy<F> {
    let data = || {
        (prop_oneof![65530usize..65545, 70000usize..70010, 131070usize..131080, dict::lens(140_000)], any::<u8>())
            .prop_map(|(n, s)| Bytes((0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s)).collect()))
    };
    prop_oneof![
        data().prop_map(|data| F::Crypto { off: 0, data }),
        (vi(), data(), any::<bool>()).prop_map(|(id, data, fin)| F::Stream { id, off: 0, data, fin }),
        data().prop_map(|token| F::NewToken { token }),
        (vi(), data()).prop_map(|(code, reason)| F::Close { code, frame_type: None, reason }),
    ]
    .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("constructed", "sequences of frames made with the constructors, as the end of a datagram or not; non-trivial: some frame has fields", 12_000, 300_000, || bx((cframes(), any::<bool>()).prop_map(|(fs, end)| Built { fs, end })), check_built),
        law("decoded", "well-formed frame sequences decoded and serialised again; non-trivial: some frame has fields", 12_000, 300_000, || bx((wframes(), any::<bool>()).prop_map(|(ws, end)| Decoded { ws, end })), check_decoded),
        law(
            "unencodable",
            "a frame sequence in which one variable-length field is set above 2^62-1; non-trivial: the frame has such a field",
            8_000,
            200_000,
            || bx((cframes(), 0usize..30, 0u8..6, u64s(), any::<bool>()).prop_map(|(fs, at, which, big, end)| Big { fs, at, which, big, end })),
            check_overflow,
        ),
        law("limits", "a frame sequence in which one frame passes a limit a receiver may enforce (stream counts above 2^60, retiring past the sequence number, an empty token), refused or serialised exactly; non-trivial: it does", 6_000, 150_000, || bx((cframes(), 0usize..30, vi(), any::<bool>()).prop_map(|(fs, at, big, end)| Big { fs, at, which: 0, big, end })), check_loose),
        law("repeated", "a few frames over and over, up to 70000, between others; all non-trivial", 40, 2_000, || bx(repeated()), check_repeated),
        law("huge-data", "frames with 64 KiB to 128 KiB of data, alone or followed by others; all non-trivial", 48, 2_000, || bx((huge(), vec(frame().prop_map(constructible), 0..2), any::<bool>()).prop_map(|(h, mut fs, end)| { fs.insert(0, h); Built { fs, end } })), check_built),
    ]
}
