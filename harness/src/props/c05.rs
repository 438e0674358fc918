//! Malformed frame payloads are rejected as a whole.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::frame::*;
use crate::model::varint::{enc, enc_w, pick_width};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::frame::deserialize_frames;
use serde::{Deserialize, Serialize};

/// the library must agree with the reference parser on `b`
pub fn agree(b: &[u8], o: &mut Obs) -> Check {
    let want = parse(b);
    let got = guard("deserialize_frames", || deserialize_frames(&mut Bs::new(b)))?;
    let show = || hex(&b[..b.len().min(120)]);
    match (want, got) {
        (Verdict::Reject(why), Ok(f)) => Err(format!("malformed payload ({why}) accepted as {} frames: {}", f.len(), show())),
        (Verdict::Reject(_), Err(_)) => {
            o.label("rejected");
            o.nontrivial();
            Ok(())
        }
        (Verdict::Accept(w), Ok(g)) => {
            o.label("accepted");
            same_frames(&observe(&g)?, &w).map_err(|e| format!("{e}; payload {}", show()))
        }
        (Verdict::Accept(_), Err(e)) => Err(format!("well-formed payload rejected with {e:?}: {}", show())),
        (Verdict::Either(w), Ok(g)) => {
            o.label("refusable, accepted");
            same_frames(&observe(&g)?, &w).map_err(|e| format!("{e}; payload {}", show()))
        }
        (Verdict::Either(_), Err(_)) => {
            o.label("refusable, refused");
            Ok(())
        }
    }
}

fn check_raw(b: &Bytes, o: &mut Obs) -> Check {
    agree(b, o)
}
fn check_cuts(ws: &Vec<W>, o: &mut Obs) -> Check {
    let b = encode_all(ws);
    o.nontrivial_if(b.len() > 1);
    // every position of short payloads, the interesting ones of long payloads
    for i in 0..=b.len() {
        if b.len() > 300 && i > 120 && i + 60 < b.len() && i % 37 != 0 {
            continue;
        }
        o.evals(2);
        agree(&b[..i], o)?;
        let r = guard("deserialize_frames", || deserialize_frames(&mut Bs::with_error(&b, i)))?;
        ensure(r.is_err(), || format!("stream error at byte {i} of {} not reported", hex(&b[..b.len().min(100)])))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Unknown {
    before: Vec<W>,
    ty: u64,
    width: u8,
    after: Bytes,
}
fn check_unknown(c: &Unknown, o: &mut Obs) -> Check {
    let mut before = c.before.clone();
    before.iter_mut().for_each(|w| w.len = true);
    let mut b = encode_all(&before);
    b.extend(enc_w(c.ty, pick_width(c.ty, c.width)));
    b.extend_from_slice(&c.after);
    o.label_if(c.ty > 0xff, "type above 255");
    o.label_if(c.ty & 0xff < 0x1f && c.ty > 0x1e, "low byte looks known");
    agree(&b, o)
}
/// every unknown 1- and 2-byte type, with and without following bytes
fn check_types(ty: &u64, o: &mut Obs) -> Check {
    o.nontrivial();
    o.evals(4);
    for w in 0..4u8 {
        for tail in [&[][..], &[0u8; 40][..], &[1u8; 3][..]] {
            let mut b = enc_w(*ty, pick_width(*ty, w));
            b.extend_from_slice(tail);
            agree(&b, o)?;
            let mut b2 = vec![1u8, 0];
            b2.extend_from_slice(&b);
            agree(&b2, o)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct BadCid {
    before: Vec<W>,
    seq: u64,
    retire: u64,
    len: u8,
    body: usize,
    after: Vec<W>,
}
fn check_cid_len(c: &BadCid, o: &mut Obs) -> Check {
    let mut before = c.before.clone();
    before.iter_mut().for_each(|w| w.len = true);
    let mut b = encode_all(&before);
    b.push(0x18);
    b.extend(enc(c.seq));
    b.extend(enc(c.retire));
    b.push(c.len);
    b.extend((0..c.body).map(|i| i as u8));
    b.extend(encode_all(&c.after));
    o.label_if(c.len == 0, "length 0");
    o.label_if(c.len > 20, "length above 20");
    agree(&b, o)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Mutated {
    pub ws: Vec<W>,
    pub edits: Vec<(u32, u8, u8)>,
}
pub fn mutate(mut b: Vec<u8>, edits: &[(u32, u8, u8)]) -> Vec<u8> {
    for (at, op, v) in edits {
        let n = b.len();
        if n == 0 {
            b.push(*v);
            continue;
        }
        let i = *at as usize % n;
        match op % 7 {
            0 => b[i] = *v,
            1 => b[i] ^= 1 << (v % 8),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, *v),
            4 => b.truncate(i),
            5 => {
                let j = (i + 1 + *v as usize).min(n);
                let part = b[i..j].to_vec();
                b.extend(part);
            }
            _ => b[i] = [0x00, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff][*v as usize % 8],
        }
    }
    b
}
pub fn edits() -> BoxedStrategy<Vec<(u32, u8, u8)>> {
    vec((prop_oneof![2 => 0u32..40, 1 => any::<u32>()], 0u8..7, any::<u8>()), 1..4).boxed()
}
/// something malformed, or nothing, after a long run of frames
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Late {
    unit: Vec<W>,
    n: u32,
    tail: Bytes,
}
fn check_late(c: &Late, o: &mut Obs) -> Check {
    let mut unit = c.unit.clone();
    unit.iter_mut().for_each(|w| w.len = true);
    let mut b = encode_all(&unit).repeat(c.n as usize / unit.len().max(1));
    b.truncate(200_000);
    b.extend_from_slice(&c.tail);
    agree(&b, o)?;
    let n = b.len();
    let r = guard("deserialize_frames", || deserialize_frames(&mut Bs::with_error(&b, n)))?;
    ensure(r.is_err(), || format!("stream error at the end of {n} bytes not reported"))
}
fn late() -> BoxedStrategy<Late> {
    let one = |f| W { f, w: vec![], off: false, len: true };
    let unit = prop_oneof![2 => prop::sample::select(vec![F::Padding, F::Ping, F::HandshakeDone]).prop_map(move |f| vec![one(f)]), 1 => vi().prop_map(move |v| vec![one(F::MaxData(v))]), 1 => vec(small_wframe(), 1..3)];
    let tail = prop_oneof![
        2 => (0x1fu64..0x140).prop_map(|t| Bytes(enc(t))),
        2 => (wframe(), any::<u16>()).prop_map(|(mut w, n)| {
            w.len = true;
            let mut b = encode_all(&[w]);
            b.truncate(n as usize % b.len().max(1));
            Bytes(b)
        }),
        1 => content(0..30),
        1 => (small_wframes(), edits()).prop_map(|(ws, e)| Bytes(mutate(encode_all(&ws), &e))),
    ];
    (unit, prop_oneof![3 => 100u32..2000, 2 => 2000u32..20_000, 1 => 20_000u32..70_000, 1 => dict::lens(70_000).prop_map(|n| n as u32)], tail)
        .prop_map(|(unit, n, tail)| Late { unit, n, tail })
        .boxed()
}
fn check_mutated(c: &Mutated, o: &mut Obs) -> Check {
    agree(&mutate(encode_all(&c.ws), &c.edits), o)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Loose {
    ws: Vec<W>,
    at: usize,
    v: u64,
}
/// values a receiver may refuse: refused as a whole, or read exactly
fn check_loose(c: &Loose, o: &mut Obs) -> Check {
    if c.ws.is_empty() {
        return Ok(());
    }
    let mut ws = c.ws.clone();
    let at = c.at % ws.len();
    ws[at].f = loosen(ws[at].f.clone(), c.v);
    let b = encode_all(&ws);
    o.label(kind(&ws[at].f));
    o.nontrivial_if(matches!(parse(&b), Verdict::Either(_)));
    agree(&b, o)
}
/// bytes that start like frames: a type byte, then small or boundary bytes
fn typed_bytes() -> BoxedStrategy<Bytes> {
    vec((0u8..0x22, content(0..14)), 1..5)
        .prop_map(|v| Bytes(v.into_iter().flat_map(|(t, b)| std::iter::once(t).chain(b.0).collect::<Vec<_>>()).collect()))
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("bytes", "arbitrary bytes and bytes that start like frames; non-trivial: the reference parser rejects them", 40_000, 1_500_000, || bx(prop_oneof![1 => content(0..60), 3 => typed_bytes()]), check_raw),
        law("cuts", "well-formed payloads cut and failed at every byte; non-trivial: more than one byte", 2_500, 60_000, || bx(prop_oneof![4 => small_wframes(), 1 => wframes()]), check_cuts),
        law("mutations", "well-formed payloads with 1..3 edits (replace, flip, delete, insert, cut, duplicate); non-trivial: the reference parser rejects the result", 40_000, 1_500_000, || bx((small_wframes(), edits()).prop_map(|(ws, edits)| Mutated { ws, edits })), check_mutated),
        law("late", "100 to 70000 frames, then something malformed, cut or arbitrary; non-trivial: the reference parser rejects it", 120, 4_000, || bx(late()), check_late),
        law("unknown-types", "an unknown type of any width after well-formed frames; non-trivial: rejected by the reference parser", 10_000, 300_000, || {
            bx((
                small_wframes(),
                prop_oneof![2 => 0x1fu64..0x140, 2 => vi(), 3 => (1u64..1 << 20, 0u64..0x1f).prop_map(|(h, l)| (h << 8 | l) & VMAX), 1 => (0u32..54, 0u64..0x1f).prop_map(|(s, l)| 1u64 << (8 + s) | l)],
                0u8..4,
                prop_oneof![2 => content(0..40), 1 => Just(Bytes::default()), 2 => small_wframes().prop_map(|ws| Bytes(encode_all(&ws)))],
            )
                .prop_map(|(before, ty, width, after)| Unknown { before, ty: if ty < 0x1f { ty + 0x1f } else { ty }, width, after }))
        }, check_unknown),
        law("cid-lengths", "NEW_CONNECTION_ID with every length byte; non-trivial: rejected by the reference parser", 8_000, 200_000, || {
            bx((small_wframes(), vi(), vi(), prop_oneof![3 => 0u8..24, 1 => any::<u8>()], prop_oneof![0usize..300, 16usize..40], small_wframes())
                .prop_map(|(before, seq, retire, len, body, after)| BadCid { before, seq, retire: retire.min(seq), len, body, after }))
        }, check_cid_len),
        law("limits", "well-formed payloads in which one frame passes a limit a receiver may enforce (stream counts above 2^60, retiring past the sequence number, an empty token, data past 2^62-1, acknowledged numbers below 0); non-trivial: it does", 12_000, 300_000, || bx((small_wframes(), 0usize..8, vi()).prop_map(|(ws, at, v)| Loose { ws, at, v })), check_loose),
        sweep("types", "every type value from 0x00 to 0x3fff in every width (thorough: to 0xffff), and every type below 0x20 with one or all higher bits set, enumerated; all non-trivial", |t| {
            Box::new((0u64..if t { 0x10000 } else { 0x4000 }).chain((6u32..62).flat_map(|s| (0u64..0x20).flat_map(move |l| [1u64 << s | l, (VMAX >> s << s) | l, (1u64 << s) - 1 - l].into_iter()))))
        }, check_types),
    ]
}
