//! Lengths and counts claimed by a peer never drive memory use.
use super::c06::{crowded, datagram, Crowded, In};
use super::common::*;
use crate::alloc::measure;
use crate::engine::*;
use crate::gen::*;
use crate::model::packet::{decode_pn, Kind};
use crate::model::varint::{enc_w, pick_width};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::frame::deserialize_frames;
use quic_sea::verif::packet::{decode_packets, next_header_from_stream};
use serde::{Deserialize, Serialize};

/// Generous: the densest legal payload (one frame per byte) needs a few hundred bytes per byte.
fn bound(n: usize) -> u64 {
    1024 * n as u64 + 16 * 1024
}
fn within(what: &str, n: usize, peak: u64) -> Check {
    ensure(peak <= bound(n), || format!("{what} of {n} bytes had {peak} bytes allocated at once (limit {})", bound(n)))
}
fn run(c: &In) -> Result<(bool, bool, u64), String> {
    let conn = c.conn.build()?;
    let n = c.b.len();
    let mut s = Bs::new(&c.b);
    let (r, p1) = measure(|| guard("next_header_from_stream", || next_header_from_stream(&mut s)));
    let hdr = r?.is_ok();
    within("parsing the header", n, p1)?;
    let mut s = Bs::new(&c.b);
    let (r, p2) = measure(|| guard("decode_packets", || decode_packets(&mut s, &conn)));
    let ok = r?.is_ok();
    within("decoding the datagram", n, p2)?;
    let mut s = Bs::new(&c.b);
    let (r, p3) = measure(|| guard("deserialize_frames", || deserialize_frames(&mut s)));
    let _ = r?;
    within("decoding the frames", n, p3)?;
    Ok((hdr, ok, p1.max(p2).max(p3)))
}
fn check(c: &In, o: &mut Obs) -> Check {
    let (hdr, ok, _) = run(c)?;
    o.label_if(hdr, "header parses");
    o.label_if(ok, "datagram decodes");
    o.nontrivial_if(hdr);
    o.evals(3);
    Ok(())
}

/// claims that matter: far larger than the datagram
fn huge() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => (16u32..62, any::<u64>()).prop_map(|(k, v)| 1u64 << k | (v & ((1u64 << k) - 1))),
        1 => prop::sample::select(vec![1u64 << 17, 1 << 20, 1 << 24, 1 << 28, 1 << 31, 1 << 40, 1 << 61, VMAX]),
    ]
    .boxed()
}
/// each kind of length or count field, claiming far more than follows
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Claim {
    Token { v: u64, w: u8 },
    Length { v: u64, w: u8 },
    Crypto { off: u64, v: u64 },
    NewToken { v: u64 },
    Stream { id: u64, off: u64, v: u64, bits: u8 },
    AckRanges { v: u64, ecn: bool, some: u8 },
    Reason { v: u64, app: bool },
    VnIds { dl: u8, sl: u8 },
    CidLen { dl: u8, sl: u8 },
}
fn claims() -> BoxedStrategy<Claim> {
    prop_oneof![
        2 => (huge(), 0u8..4).prop_map(|(v, w)| Claim::Token { v, w }),
        2 => (huge(), 0u8..4).prop_map(|(v, w)| Claim::Length { v, w }),
        2 => (vi(), huge()).prop_map(|(off, v)| Claim::Crypto { off: off.min(VMAX - v), v }),
        2 => huge().prop_map(|v| Claim::NewToken { v }),
        2 => (vi(), vi(), huge(), 0u8..8).prop_map(|(id, off, v, bits)| Claim::Stream { id, off, v, bits }),
        2 => (huge(), any::<bool>(), 0u8..8).prop_map(|(v, ecn, some)| Claim::AckRanges { v, ecn, some }),
        2 => (huge(), any::<bool>()).prop_map(|(v, app)| Claim::Reason { v, app }),
        1 => any::<(u8, u8)>().prop_map(|(dl, sl)| Claim::VnIds { dl, sl }),
        1 => any::<(u8, u8)>().prop_map(|(dl, sl)| Claim::CidLen { dl, sl }),
    ]
    .boxed()
}
fn e(v: u64) -> Vec<u8> {
    enc_w(v, pick_width(v, 0))
}
const WIDE: u8 = 0xff;
fn claim_width(v: u64, w: u8) -> usize {
    if w == WIDE {
        8
    } else {
        pick_width(v, w)
    }
}
fn wide(v: u64) -> Vec<u8> {
    enc_w(v, 8)
}
fn frame_bytes(c: &Claim, tail: &[u8], e: fn(u64) -> Vec<u8>) -> Option<Vec<u8>> {
    let mut b = match c {
        Claim::Crypto { off, v } => [vec![6], e(*off), e(*v)].concat(),
        Claim::NewToken { v } => [vec![7], e(*v)].concat(),
        Claim::Stream { id, off, v, bits } => {
            let mut b = vec![8 | bits];
            b.extend(e(*id));
            if bits & 4 != 0 {
                b.extend(e(*off))
            }
            if bits & 2 != 0 {
                b.extend(e(*v))
            }
            b
        }
        Claim::AckRanges { v, ecn, some } => {
            let mut b = [vec![2 + *ecn as u8], e(1000), e(0), e(*v), e(0)].concat();
            for _ in 0..*some {
                b.extend([0, 0]);
            }
            b
        }
        Claim::Reason { v, app } => {
            let mut b = vec![0x1c + *app as u8, 1];
            if !*app {
                b.push(0)
            }
            b.extend(e(*v));
            b
        }
        _ => return None,
    };
    b.extend_from_slice(tail);
    Some(b)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Claimed {
    conn: Conn,
    pk: Pk,
    claim: Claim,
    tail: Bytes,
}
/// the frame that makes the claim, if a frame does, and the datagram
fn claimed(c: &Claimed, claim: &Claim, e: fn(u64) -> Vec<u8>) -> (Option<Vec<u8>>, Vec<u8>) {
    let mut p = c.pk.p.clone();
    let keys = c.conn.remote_keys(space_of(p.kind)).expect("keys");
    let frame = frame_bytes(claim, &c.tail, e);
    let b = if let Some(fb) = &frame {
        p.pn = decode_pn(c.conn.largest[space_of(p.kind)], p.pn & ((1u64 << (8 * p.pn_len)) - 1), p.pn_len as usize);
        p.seal_with(&keys, &[&[1u8; 3][..], fb].concat(), None)
    } else {
        let mut b = p.id_part();
        match claim {
            Claim::Token { v, w } => {
                p.kind = Kind::Initial;
                b = p.id_part();
                b.extend(enc_w(*v, claim_width(*v, *w)));
            }
            Claim::Length { v, w } => {
                if p.kind == Kind::OneRtt {
                    p.kind = Kind::Handshake;
                    b = p.id_part();
                }
                if p.kind == Kind::Initial {
                    b.push(0)
                }
                b.extend(enc_w(*v, claim_width(*v, *w)));
            }
            Claim::VnIds { dl, sl } => {
                b = vec![0x80, 0, 0, 0, 0, *dl];
                b.extend(c.tail.iter().take(*dl as usize));
                b.push(*sl);
            }
            Claim::CidLen { dl, sl } => {
                b = vec![0xc0, 0, 0, 0, 1, *dl];
                b.extend(c.tail.iter().take(*dl as usize));
                b.push(*sl);
            }
            _ => unreachable!(),
        }
        b.extend_from_slice(&c.tail);
        b
    };
    (frame, b)
}
fn check_claim(c: &Claimed, o: &mut Obs) -> Check {
    o.nontrivial();
    let (frame, b) = claimed(c, &c.claim, e);
    o.label(if frame.is_some() { "frame field" } else { "packet field" });
    if let Some(fb) = frame {
        // directly
        let mut s = Bs::new(&fb);
        let (r, peak) = measure(|| guard("deserialize_frames", || deserialize_frames(&mut s)));
        let _ = r?;
        within("decoding the frames", fb.len(), peak)?;
    }
    o.evals(4);
    run(&In { conn: c.conn.clone(), b: Bytes(b) }).map(|_| ())
}
/// the same bytes but for the claim: a larger claim must not need more memory than one just past
/// what was received
fn check_larger(c: &Claimed, o: &mut Obs) -> Check {
    o.nontrivial();
    let (mut big, mut small) = (c.claim.clone(), c.claim.clone());
    let least = c.tail.len() as u64 + 64;
    let (Claim::Token { v, w: _ }
    | Claim::Length { v, w: _ }
    | Claim::Crypto { v, .. }
    | Claim::NewToken { v }
    | Claim::Stream { v, .. }
    | Claim::AckRanges { v, .. }
    | Claim::Reason { v, .. }) = &mut small
    else {
        return Ok(());
    };
    *v = least;
    for x in [&mut big, &mut small] {
        if let Claim::Token { w, .. } | Claim::Length { w, .. } = x {
            *w = WIDE;
        }
    }
    let (f1, b1) = claimed(c, &small, wide);
    let (f2, b2) = claimed(c, &big, wide);
    o.label(if f1.is_some() { "frame field" } else { "packet field" });
    ensure(b1.len() == b2.len(), || "the two datagrams differ in length".into())?;
    let mut pairs = vec![(b1, b2)];
    if let (Some(x), Some(y)) = (f1, f2) {
        pairs.push((x, y));
    }
    for (x, y) in pairs {
        let n = x.len();
        let (_, _, px) = run(&In { conn: c.conn.clone(), b: Bytes(x) })?;
        let (_, _, py) = run(&In { conn: c.conn.clone(), b: Bytes(y) })?;
        o.evals(6);
        // room for a small reservation made up front
        ensure(py <= px + 16384 + 16 * n as u64, || format!("{n} bytes that claim {} take {px} bytes to decode, and {py} bytes when they claim {:?}", least, big))?;
    }
    Ok(())
}

/// sixteen times the input takes no more than sixteen times the memory, and buffers that double
fn linear(what: &str, less: (usize, u64), more: (usize, u64)) -> Check {
    let f = (more.0 / less.0.max(1) + 1) as u64;
    ensure(more.1 <= less.1 * f * 5 / 2 + 65_536, || format!("{what}: {} bytes take {} bytes to decode, {} bytes take {}", less.0, less.1, more.0, more.1))
}
fn check_linear(c: &(Crowded, u8), o: &mut Obs) -> Check {
    let (c, t) = c;
    let (less, more) = (Crowded { times: c.times, ..c.clone() }.datagram(), Crowded { times: c.times * 16, ..c.clone() }.datagram());
    let (_, ok, a) = run(&less)?;
    let (_, _, b) = run(&more)?;
    o.nontrivial_if(ok);
    o.label_if(ok, "datagram decodes");
    linear("coalesced packets", (less.b.len(), a), (more.b.len(), b))?;
    // and the frames of one packet
    let unit: &[u8] = [&[0u8][..], &[1], &[0x1e], &[0x08, 0x00], &[0x10, 0x05], &[0x06, 0, 1, 7], &[0x02, 5, 0, 1, 0, 1, 1]][*t as usize % 7];
    let mut peaks = vec![];
    for n in [c.times as usize, c.times as usize * 16] {
        let b = unit.repeat(n);
        let mut s = Bs::new(&b);
        let (r, p) = measure(|| guard("deserialize_frames", || deserialize_frames(&mut s)));
        o.label_if(r?.is_ok(), "frames decode");
        peaks.push((b.len(), p));
    }
    o.evals(8);
    linear("frames", peaks[0], peaks[1])
}

/// the densest honest payloads stay within the bound too
fn check_dense(c: &(Conn, Pk, u16, u8), o: &mut Obs) -> Check {
    let (conn, pk, n, t) = c;
    let mut pk = pk.clone();
    let unit: &[u8] = [&[0u8][..], &[1], &[0x1e], &[0x08, 0x00][..], &[0x10, 0x05]][*t as usize % 5];
    let pl: Vec<u8> = unit.iter().cycle().take(*n as usize * unit.len()).cloned().collect();
    pk.p.pn = decode_pn(conn.largest[space_of(pk.p.kind)], pk.p.pn & ((1u64 << (8 * pk.p.pn_len)) - 1), pk.p.pn_len as usize);
    let b = pk.p.seal_with(&conn.remote_keys(space_of(pk.p.kind)).unwrap(), &pl, None);
    o.nontrivial();
    let (_, ok, peak) = run(&In { conn: conn.clone(), b: Bytes(b.clone()) })?;
    o.label_if(ok, "decodes");
    o.label_if(peak > 64 * b.len() as u64, "over 64 bytes per byte");
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("claims", "each length or count field claiming 2^16..2^62 with few bytes behind it, in a frame, a sealed packet or a header; all non-trivial", 20_000, 500_000, || {
            bx((conn_packet(kind_any, payload_small), claims(), content(0..40)).prop_map(|((conn, pk), claim, tail)| Claimed { conn, pk, claim, tail }))
        }, check_claim),
        law("larger-claims", "the same bytes claiming just more than follows, and claiming 2^16..2^62: the larger claim takes no more memory; all non-trivial", 8_000, 200_000, || {
            bx((conn_packet(kind_any, payload_small), claims().prop_filter("has a value", |c| !matches!(c, Claim::VnIds { .. } | Claim::CidLen { .. })), content(0..40)).prop_map(|((conn, pk), claim, tail)| Claimed { conn, pk, claim, tail }))
        }, check_larger),
        law("datagrams", "the datagrams of C06; non-trivial: the first header parses", 25_000, 800_000, || bx(datagram()), check),
        law("dense", "payloads of up to 3000 one- or two-byte frames; all non-trivial", 400, 8_000, || {
            bx((conn_packet(kind_any, payload_small), 1u16..3000, 0u8..5).prop_map(|((c, p), n, t)| (c, p, n, t)))
        }, check_dense),
        law("linear", "a few packets, or one frame, 30 to 140 times, and 16 times as often: the memory grows in proportion; non-trivial: the datagram decodes", 150, 4_000, || bx((crowded(), 30u16..140, 0u8..7).prop_map(|(c, times, t)| (Crowded { times, ..c }, t))), check_linear),
        law("many-versions", "long version negotiation lists and long runs of coalesced headers; non-trivial: the first header parses", 400, 6_000, || {
            bx((some_conn(), vec(any::<u32>(), 0..4000), vec(super::c06::structured(), 0..20), any::<bool>()).prop_map(|(conn, vs, st, vn)| {
                let b = if vn {
                    let mut b = vec![0x80, 0, 0, 0, 0, 0, 0];
                    vs.iter().for_each(|v| b.extend(v.to_be_bytes()));
                    b
                } else {
                    st.concat()
                };
                In { conn, b: Bytes(b) }
            }))
        }, check),
    ]
}
