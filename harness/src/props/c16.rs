//! Header protection touches only its bits, inverts, and gates reads.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::packet::{next_header_from_stream, LongPacketHeader, PacketHeader};
use quic_sea::verif::quictls::{Secrets, TLS13_AES_128_GCM_SHA256};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ops {
    first: u8,
    version: u32,
    dcid: Bytes,
    scid: Bytes,
    /// true: add protection, false: remove it
    ops: Vec<(bool, [u8; 5])>,
}
fn first_of(h: &PacketHeader) -> Result<Vec<u8>, String> {
    guard("to_bytes", || match h {
        PacketHeader::Short(x) => x.to_bytes(),
        PacketHeader::Long(x) => x.to_bytes(),
    })
}
fn gated(h: &PacketHeader, protected: bool, first: u8, readable: bool) -> Check {
    match h {
        PacketHeader::Long(x) => {
            let r = guard("packet_number_length", || x.packet_number_length())?;
            if protected {
                ensure(r.is_err(), || "packet number length read from a protected long header".into())
            } else if readable {
                let want = (first & 3) as usize + 1;
                ensure(matches!(r, Ok(n) if n == want), || format!("packet number length {r:?} of first byte {first:#04x}"))
            } else {
                Ok(())
            }
        }
        PacketHeader::Short(x) => {
            let (pn, spin, res, phase) = guard("short header fields", || (x.packet_number_length(), x.spin_bit(), x.reserved_bits(), x.key_phase()))?;
            if protected {
                ensure(pn.is_err() && spin.is_err() && res.is_err() && phase.is_err(), || format!("protected short header gives {pn:?} {spin:?} {res:?} {phase:?}"))
            } else {
                let ok = matches!(pn, Ok(n) if n == (first & 3) as usize + 1)
                    && matches!(spin, Ok(b) if b == (first & 0x20 != 0))
                    && matches!(res, Ok(n) if n == (first >> 3) & 3)
                    && matches!(phase, Ok(b) if b == (first & 4 != 0));
                ensure(ok, || format!("first byte {first:#04x} gives {pn:?} {spin:?} {res:?} {phase:?}"))
            }
        }
    }
}
fn check_ops(c: &Ops, o: &mut Obs) -> Check {
    let long = c.first & 0x80 != 0;
    let mut b = vec![c.first];
    if long {
        b.extend(c.version.to_be_bytes());
        b.push(c.dcid.len() as u8);
        b.extend_from_slice(&c.dcid);
        b.push(c.scid.len() as u8);
        b.extend_from_slice(&c.scid);
    } else {
        let mut d = c.dcid.0.clone();
        d.resize(8, 0x3c);
        b.extend(d);
    }
    // Retry and version negotiation have no header protection
    let plain = long && (c.version == 0 || c.first & 0x30 == 0x30);
    o.label(if !long { "short" } else if plain { "retry or version negotiation" } else { "long" });
    let mut h = lib("next_header_from_stream", guard("next_header_from_stream", || next_header_from_stream(&mut Bs::new(&b)))?)?;
    let bits = if long { 0x0f } else { 0x1f };
    let (mut protected, mut first) = (!plain, c.first);
    gated(&h, protected, first, !plain)?;
    let mut changes = 0;
    for (add, mask) in &c.ops {
        o.evals(1);
        if plain && *add {
            continue;
        }
        guard("protection", || match (&mut h, add) {
            (PacketHeader::Long(x), true) => x.add_protection(mask),
            (PacketHeader::Long(x), false) => x.remove_protection(mask),
            (PacketHeader::Short(x), true) => x.add_protection(mask),
            (PacketHeader::Short(x), false) => x.remove_protection(mask),
        })?;
        if protected != *add {
            first ^= mask[0] & bits;
            protected = *add;
            changes += (mask[0] & bits != 0) as u32;
        }
        let mut want = b.clone();
        want[0] = first;
        let got = first_of(&h)?;
        ensure(got == want, || format!("after {} with mask {}: {} expected {}", if *add { "adding" } else { "removing" }, hex(mask), hex(&got), hex(&want)))?;
        gated(&h, protected, first, !plain)?;
    }
    o.nontrivial_if(changes > 0 || plain);
    Ok(())
}
/// any mask, and masks with zero, full or repeated bytes
fn mask() -> BoxedStrategy<[u8; 5]> {
    let part = prop_oneof![2 => Just(0u8), 1 => Just(0xff), 2 => any::<u8>()];
    prop_oneof![
        3 => any::<[u8; 5]>(),
        2 => prop::array::uniform5(part),
        1 => (any::<u8>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(a, b)| [a, b, b, b, b]),
    ]
    .boxed()
}
fn ops() -> BoxedStrategy<Ops> {
    (any::<u8>(), prop_oneof![5 => Just(1u32), 1 => Just(0u32), 1 => any::<u32>()], any_cid(), any_cid(), vec((any::<bool>(), mask()), 1..6))
        .prop_map(|(first, version, dcid, scid, ops)| Ops { first, version, dcid, scid, ops })
        .boxed()
}
/// every first byte and mask byte: remove, then add back
fn check_pairs(c: &(u8, u8), o: &mut Obs) -> Check {
    let (first, m) = *c;
    for ops in [vec![(false, [m, 1, 2, 3, 4]), (true, [m, 9, 9, 9, 9])], vec![(true, [m; 5]), (false, [m; 5]), (false, [!m; 5]), (true, [m; 5]), (true, [!m; 5])]] {
        check_ops(&Ops { first, version: 1, dcid: Bytes(vec![1; 8]), scid: Bytes(vec![2; 3]), ops }, o)?;
    }
    Ok(())
}
/// headers built for sending start unprotected
fn check_built(c: &(Conn, u8, [u8; 5]), o: &mut Obs) -> Check {
    let (cn, first, mask) = c;
    let conn = cn.build()?;
    let first = *first | 0xc0;
    let h = guard("from_connection", || LongPacketHeader::from_connection(&conn, first))?;
    let Some(scid) = &cn.scid else {
        o.label("no source id");
        return ensure(h.is_err(), || "a header was built without a source id".into());
    };
    let mut h = lib("from_connection", h)?;
    let mut want = vec![first, 0, 0, 0, 1, cn.cid.len() as u8];
    want.extend_from_slice(&cn.cid);
    want.push(scid.len() as u8);
    want.extend_from_slice(scid);
    ensure(h.to_bytes() == want, || format!("built header {} expected {}", hex(&h.to_bytes()), hex(&want)))?;
    let n = lib("packet_number_length", h.packet_number_length())?;
    ensure(n == (first & 3) as usize + 1, || format!("packet number length {n} of {first:#04x}"))?;
    h.add_protection(mask);
    let mut prot = want.clone();
    prot[0] ^= mask[0] & 0x0f;
    ensure(h.to_bytes() == prot, || "adding protection changed more than its bits".into())?;
    ensure(h.packet_number_length().is_err(), || "packet number length read from a protected header".into())?;
    h.remove_protection(mask);
    ensure(h.to_bytes() == want, || "removing protection does not restore the header".into())?;
    o.nontrivial_if(mask[0] & 0x0f != 0);
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mask {
    conn: Conn,
    sample: Bytes,
    err: Option<u8>,
}
fn check_mask(c: &Mask, o: &mut Obs) -> Check {
    let conn = c.conn.build()?;
    let stream = || match c.err {
        Some(i) => Bs::with_error(&c.sample, i as usize),
        None => Bs::new(&c.sample),
    };
    let enough = c.sample.len() >= 16 && c.err.map_or(true, |e| e >= 16);
    o.label(if enough { "full sample" } else { "short or failing sample" });
    o.label_if(c.sample.len() > 16, "longer than a sample");
    o.nontrivial();
    for i in 0..3 {
        for local in [true, false] {
            o.evals(1);
            let keys = if local { c.conn.local_keys(i) } else { c.conn.remote_keys(i) };
            let got = guard("hp mask", || if local { conn.get_local_hp_mask(sp(i), &mut stream()) } else { conn.get_remote_hp_mask(sp(i), &mut stream()) })?;
            match keys {
                Some(k) if enough => {
                    let want = k.mask(&c.sample[..16]);
                    let got = lib("hp mask", got)?;
                    ensure(got == want, || format!("space {i}, {}: mask {} expected {}", if local { "local" } else { "remote" }, hex(&got), hex(&want)))?;
                }
                k => ensure(got.is_err(), || format!("space {i}: a mask although {}", if k.is_none() { "there are no keys" } else { "the sample is short" }))?,
            }
        }
    }
    Ok(())
}
fn masks() -> BoxedStrategy<Mask> {
    (some_conn(), prop_oneof![3 => content(16..17), 2 => content(17..40), 2 => content(0..16)], proptest::option::weighted(0.2, 0u8..24))
        .prop_map(|(conn, sample, err)| Mask { conn, sample, err: err.filter(|e| (*e as usize) < 24) })
        .boxed()
}
fn check_raw(c: &(Bytes, Bytes), o: &mut Obs) -> Check {
    let (secret, sample) = c;
    o.nontrivial();
    let s = lib("from_secret", Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, secret))?;
    let want = crate::model::crypto::Keys::from_secret(secret).mask(sample);
    let got = lib("mask", guard("get_header_protection_mask", || s.get_header_protection_mask(&mut Bs::new(sample)))?)?;
    ensure(got == want, || format!("mask {} expected {}", hex(&got), hex(&want)))
}

/// similar samples under similar secrets, in any order
fn check_similar(c: &(Vec<Bytes>, Vec<Bytes>, Vec<(u8, u8)>), o: &mut Obs) -> Check {
    let (secrets, samples, ops) = c;
    let ss: Vec<_> = secrets.iter().map(|x| lib("from_secret", Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, x))).collect::<Result<_, _>>()?;
    o.nontrivial_if(ops.len() > 1);
    for (n, (i, j)) in ops.iter().enumerate() {
        let (i, sample) = (*i as usize % ss.len(), &samples[*j as usize % samples.len()]);
        o.evals(1);
        let want = crate::model::crypto::Keys::from_secret(&secrets[i]).mask(sample);
        let got = lib("mask", guard("get_header_protection_mask", || ss[i].get_header_protection_mask(&mut Bs::new(sample)))?)?;
        ensure(got == want, || format!("operation {n}: mask {} expected {}", hex(&got), hex(&want)))?;
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("sequences", "headers of every form with sequences of add and remove under different masks; non-trivial: a masked bit changed, or the header has no protection", 30_000, 1_000_000, || bx(ops()), check_ops),
        sweep("first-and-mask", "every first byte with every mask byte, removed and added in two orders, enumerated; non-trivial: a masked bit changed", |_| Box::new((0..=255u8).flat_map(|f| (0..=255u8).map(move |m| (f, m)))), check_pairs),
        law("built", "headers built from a connection for sending; non-trivial: the mask changes a bit", 4_000, 80_000, || bx((some_conn(), any::<u8>(), any::<[u8; 5]>())), check_built),
        law("masks", "masks of every space and direction on connections with any subset of keys, samples of 0..40 bytes and failing streams; all non-trivial", 6_000, 150_000, || bx(masks()), check_mask),
        law("similar", "2 to 20 masks from similar samples under similar secrets, in any order; non-trivial: two or more", 1_500, 40_000, || bx((relatives(32, 32, 0..3), relatives(16, 16, 1..6), vec(any::<(u8, u8)>(), 2..20))), check_similar),
        law("raw-masks", "masks under any traffic secret and sample; all non-trivial", 8_000, 200_000, || bx((secret(), content(16..17))), check_raw),
    ]
}
