//! Packet headers parse exactly and round-trip.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::varint::Rd;
use crate::streams::Bs;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::packet::{next_header_from_stream, PacketHeader, PacketType};

#[derive(Debug, PartialEq)]
pub struct H {
    pub long: bool,
    pub ty: &'static str,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub len: usize,
}
/// RFC 8999 and RFC 9000 section 17, with 8-byte ids in short headers
pub fn parse(b: &[u8]) -> Result<H, &'static str> {
    let mut r = Rd::new(b);
    let s = |_| "cut short";
    let first = r.u8().map_err(s)?;
    if first & 0x80 == 0 {
        let dcid = r.take(8).map_err(s)?.to_vec();
        return Ok(H { long: false, ty: "OneRtt", version: 0, dcid, scid: vec![], len: r.pos });
    }
    let version = r.uint(4).map_err(s)? as u32;
    let id = |r: &mut Rd| -> Result<Vec<u8>, &'static str> {
        let n = r.u8().map_err(|_| "cut short")?;
        if version != 0 && n > 20 {
            return Err("connection id over 20 bytes");
        }
        Ok(r.take(n as u64).map_err(|_| "cut short")?.to_vec())
    };
    let dcid = id(&mut r)?;
    let scid = id(&mut r)?;
    let ty = if version == 0 { "VersionNegotiation" } else { ["Initial", "ZeroRtt", "Handshake", "Retry"][(first as usize >> 4) & 3] };
    Ok(H { long: true, ty, version, dcid, scid, len: r.pos })
}
fn name(t: PacketType) -> &'static str {
    match t {
        PacketType::VersionNegotiation => "VersionNegotiation",
        PacketType::Initial => "Initial",
        PacketType::ZeroRtt => "ZeroRtt",
        PacketType::Handshake => "Handshake",
        PacketType::Retry => "Retry",
        PacketType::OneRtt => "OneRtt",
        PacketType::StatelessReset => "StatelessReset",
    }
}
pub fn agree(b: &[u8], o: &mut Obs) -> Check {
    let show = || hex(&b[..b.len().min(80)]);
    let mut s = Bs::new(b);
    let got = guard("next_header_from_stream", || next_header_from_stream(&mut s))?;
    o.evals(1);
    let want = match parse(b) {
        Err(why) => {
            o.label("refused");
            return ensure(got.is_err(), || format!("header accepted although {why}: {}", show()));
        }
        Ok(h) => h,
    };
    let h = got.map_err(|e| format!("header refused with {e:?}: {}", show()))?;
    o.label(want.ty);
    o.nontrivial();
    ensure(s.rest() == &b[want.len..], || format!("header of {} bytes, parser left {} of {} bytes", want.len, s.rest().len(), b.len()))?;
    ensure(name(h.get_packet_type()) == want.ty, || format!("type {:?}, expected {}: {}", h.get_packet_type(), want.ty, show()))?;
    ensure(h.get_destination_id_length() as usize == want.dcid.len(), || format!("destination id length {} not {}", h.get_destination_id_length(), want.dcid.len()))?;
    if want.dcid.len() <= 20 {
        let id = h.get_destination_id();
        ensure(id == u160(&want.dcid)? && id.to_var_bytes(want.dcid.len()) == want.dcid, || format!("destination id {id:x?} not {}", hex(&want.dcid)))?;
    }
    let out = match &h {
        PacketHeader::Short(x) => {
            ensure(!want.long, || "long header parsed as short".into())?;
            ensure(name(x.packet_type()) == want.ty, || "packet_type differs".into())?;
            guard("to_bytes", || x.to_bytes())?
        }
        PacketHeader::Long(x) => {
            ensure(want.long, || "short header parsed as long".into())?;
            ensure(x.version == want.version, || format!("version {:#x} not {:#x}", x.version, want.version))?;
            ensure(x.destination_connection_id_length as usize == want.dcid.len(), || "destination id length differs".into())?;
            ensure(x.source_connection_id_length as usize == want.scid.len(), || format!("source id length {} not {}", x.source_connection_id_length, want.scid.len()))?;
            if want.scid.len() <= 20 {
                let id = x.source_connection_id;
                ensure(id == u160(&want.scid)?, || format!("source id {id:x?} not {}", hex(&want.scid)))?;
            }
            ensure(name(x.packet_type()) == want.ty, || "packet_type differs".into())?;
            guard("to_bytes", || x.to_bytes())?
        }
    };
    ensure(out == b[..want.len], || format!("written back as {} not {}", hex(&out), hex(&b[..want.len])))
}

fn check_bytes(b: &Bytes, o: &mut Obs) -> Check {
    agree(b, o)
}
fn long(first: u8, version: u32, d: &[u8], s: &[u8]) -> Vec<u8> {
    let mut b = vec![first];
    b.extend(version.to_be_bytes());
    b.push(d.len() as u8);
    b.extend_from_slice(d);
    b.push(s.len() as u8);
    b.extend_from_slice(s);
    b
}
/// a header and every prefix of it, and an error at every position
fn check_cuts(c: &(Bytes, Bytes), o: &mut Obs) -> Check {
    let (h, tail) = c;
    let n = parse(h).map(|h| h.len).unwrap_or(h.len());
    for i in 0..n {
        agree(&h[..i], &mut Obs::default())?;
        o.evals(2);
        let r = guard("next_header_from_stream", || next_header_from_stream(&mut Bs::with_error(h, i)))?;
        // an error inside the header is an error; the parser may stop before it on refused headers
        ensure(r.is_err(), || format!("stream error at byte {i} of a {n}-byte header not reported"))?;
    }
    agree(&[&h[..], &tail[..]].concat(), o)
}
fn version() -> BoxedStrategy<u32> {
    prop_oneof![4 => Just(1u32), 2 => Just(0u32), 1 => (0u32..32).prop_map(|k| 1 << k), 1 => any::<u32>(), 1 => dict::ints(u32::MAX as u64).prop_map(|v| v as u32)].boxed()
}
fn id_any() -> BoxedStrategy<Bytes> {
    prop_oneof![5 => any_cid(), 1 => (21usize..=255).prop_flat_map(|n| cid(n..=n))].boxed()
}
fn headers() -> BoxedStrategy<Bytes> {
    prop_oneof![
        5 => (0x80u8..=0xff, version(), id_any(), id_any()).prop_map(|(f, v, d, s)| Bytes(long(f, v, &d, &s))),
        1 => (0x80u8..=0xff, id_any(), id_any()).prop_map(|(f, d, s)| Bytes(long(f, 0, &d, &s))),
        1 => (0u8..0x80, cid(8..=8)).prop_map(|(f, d)| Bytes([&[f][..], &d[..]].concat())),
    ]
    .boxed()
}
fn check_sweep(c: &(u8, u8, u32), o: &mut Obs) -> Check {
    let (first, dl, version) = *c;
    for sl in [0u8, 1, 8, 19, 20, 21, 255, dl] {
        let d: Vec<u8> = (0..dl).map(|i| i.wrapping_mul(3) ^ first).collect();
        let s: Vec<u8> = (0..sl).map(|i| i.wrapping_mul(5) ^ !first).collect();
        let mut b = long(first, version, &d, &s);
        b.extend([0x11, 0x22, 0x33]);
        agree(&b, o)?;
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("bytes", "arbitrary bytes; non-trivial: the reference parser accepts a header", 30_000, 1_000_000, || bx(prop_oneof![content(0..60), (any::<u8>(), version(), content(0..70)).prop_map(|(f, v, r)| Bytes([&[f][..], &v.to_be_bytes(), &r[..]].concat()))]), check_bytes),
        law("headers", "well-formed headers of every form with ids up to 255 bytes, at every truncation and with bytes following; non-trivial: the reference parser accepts the header", 10_000, 250_000, || bx((headers(), content(0..40))), check_cuts),
        sweep("first-bytes", "every first byte with every destination id length from 0 to 40 and 250..255, eight source id lengths and versions 0, 1 and 2^32-1, enumerated; non-trivial: accepted", |_| {
            Box::new((0..=255u8).flat_map(|f| (0u8..=40).chain(250..=255).flat_map(move |d| [0u32, 1, u32::MAX].into_iter().map(move |v| (f, d, v)))))
        }, check_sweep),
    ]
}
