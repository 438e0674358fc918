//! Well-formed frame payloads decode to exactly their frames.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use quic_sea::verif::frame::{deserialize_frame, deserialize_frames};
use serde::{Deserialize, Serialize};

fn label(o: &mut Obs, fs: &[F]) {
    for f in fs {
        o.label(kind(f))
    }
    o.nontrivial_if(fs.iter().any(|f| !matches!(f, F::Padding | F::Ping | F::HandshakeDone)));
}

fn check_payload(ws: &Vec<W>, o: &mut Obs) -> Check {
    let fs = frames_of(ws);
    label(o, &fs);
    let b = encode_all(ws);
    let mut s = Bs::new(&b);
    let frames = lib("deserialize_frames of well-formed frames", guard("deserialize_frames", || deserialize_frames(&mut s))?)?;
    ensure(s.rest().is_empty(), || format!("{} bytes of the payload left unread", s.rest().len()))?;
    same_frames(&observe(&frames)?, &fs)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Single {
    w: W,
    tail: Bytes,
}
fn check_single(c: &Single, o: &mut Obs) -> Check {
    label(o, &[c.w.f.clone()]);
    // delimited: what follows stays unread
    let one = c.w.encode(false);
    let b = [&one[..], &c.tail[..]].concat();
    let mut s = Bs::new(&b);
    let f = lib("deserialize_frame", guard("deserialize_frame", || deserialize_frame(&mut s))?)?;
    ensure(s.rest() == &c.tail[..], || format!("{}: {} bytes left unread, {} follow it", kind(&c.w.f), s.rest().len(), c.tail.len()))?;
    same_frames(&observe(&[f])?, &[c.w.f.clone()])?;
    // STREAM without a length takes everything
    if let F::Stream { id, off, data, fin } = &c.w.f {
        let mut w = c.w.clone();
        w.len = false;
        let b = [&w.encode(true)[..], &c.tail[..]].concat();
        let mut s = Bs::new(&b);
        let f = lib("deserialize_frame", guard("deserialize_frame", || deserialize_frame(&mut s))?)?;
        ensure(s.rest().is_empty(), || "STREAM without length left bytes unread".into())?;
        let all = Bytes([&data[..], &c.tail[..]].concat());
        o.label("STREAM to the end");
        if *off + all.len() as u64 <= VMAX {
            same_frames(&observe(&[f])?, &[F::Stream { id: *id, off: *off, data: all, fin: *fin }])?;
        }
    }
    Ok(())
}

/// frames before, a run of padding, frames after
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Padded {
    before: Vec<W>,
    n: u32,
    ping: bool,
    after: Vec<W>,
}
fn check_padded(c: &Padded, o: &mut Obs) -> Check {
    o.label_if(c.n > 1500, "over 1500 padding frames");
    let one = W { f: if c.ping { F::Ping } else { F::Padding }, w: vec![], off: false, len: true };
    let ws = [&c.before[..], &vec![one; c.n as usize][..], &c.after[..]].concat();
    check_payload(&ws, o)?;
    o.nontrivial_if(c.n > 0);
    Ok(())
}

/// every STREAM flag combination with small ids, offsets and data
fn check_stream_flags(c: &(bool, bool, bool, u64, u64, usize), o: &mut Obs) -> Check {
    let (off_bit, len_bit, fin, id, off, n) = *c;
    o.nontrivial();
    let w = W {
        f: F::Stream { id, off: if off_bit { off } else { 0 }, data: Bytes((0..n as u8).collect()), fin },
        w: vec![],
        off: off_bit,
        len: len_bit,
    };
    check_payload(&vec![w.clone()], o)?;
    let ping = W { f: F::Ping, w: vec![], off: false, len: false };
    check_payload(&vec![ping.clone(), w.clone(), ping], o)
}

pub fn laws() -> Vec<Law> {
    vec![
        law("payloads", "sequences of well-formed frames with integers in any legal width; non-trivial: some frame has fields", 20_000, 600_000, || bx(wframes()), check_payload),
        law("single", "one well-formed frame followed by arbitrary bytes; non-trivial: the frame has fields", 15_000, 400_000, || bx((wframe(), content(0..20)).prop_map(|(w, tail)| Single { w, tail })), check_single),
        law("long-payloads", "payloads of up to 600 small frames; non-trivial: some frame has fields", 300, 6_000, || bx(vec(small_wframe(), 40..600)), check_payload),
        law("padding-runs", "runs of up to 70000 one-byte frames between other frames; non-trivial: the run is not empty", 120, 4_000, || {
            bx((
                vec(small_wframe(), 0..3),
                prop_oneof![4 => 0u32..300, 3 => 1000u32..2000, 1 => 2000u32..70_000, 1 => dict::lens(70_000).prop_map(|n| n as u32), 1 => prop::sample::select(vec![255u32, 256, 1024, 4096, 16384, 32768, 65535, 65536])],
                proptest::bool::weighted(0.2),
                vec(small_wframe(), 0..3),
            )
                .prop_map(|(mut before, n, ping, after)| {
                    for w in &mut before {
                        w.len = true;
                    }
                    Padded { before, n, ping, after }
                }))
        }, check_padded),
        law("huge-data", "frames with 64 KiB to 128 KiB of data among small ones; all non-trivial", 48, 2_000, || {
            bx((super::c03::huge(), vec(small_wframe(), 0..3)).prop_map(|(f, mut ws)| {
                ws.insert(0, W { f, w: vec![], off: false, len: true });
                ws
            }))
        }, check_payload),
        sweep("stream-flags", "every STREAM flag combination with small ids, offsets and data, enumerated; all non-trivial", |_| {
            Box::new((0..8u8).flat_map(|fl| {
                [0u64, 1, 63, 64, 16384, VMAX].into_iter().flat_map(move |id| {
                    [0u64, 1, 5, 64, 1 << 20].into_iter().flat_map(move |off| {
                        [0usize, 1, 5, 70].into_iter().map(move |n| (fl & 4 != 0, fl & 2 != 0, fl & 1 != 0, id, off, n))
                    })
                })
            }))
        }, check_stream_flags),
    ]
}
