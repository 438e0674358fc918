//! Version negotiation packets report exactly the peer's versions.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::packet::{decode_packets, view};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Vn {
    conn: Conn,
    first: u8,
    dcid: Bytes,
    scid: Bytes,
    versions: Vec<u32>,
    /// bytes beyond a whole number of entries
    extra: Bytes,
}
impl Vn {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![self.first | 0x80, 0, 0, 0, 0, self.dcid.len() as u8];
        b.extend_from_slice(&self.dcid);
        b.push(self.scid.len() as u8);
        b.extend_from_slice(&self.scid);
        b.extend(self.versions.iter().flat_map(|v| v.to_be_bytes()));
        b.extend_from_slice(&self.extra);
        b
    }
    fn head(&self) -> usize {
        7 + self.dcid.len() + self.scid.len()
    }
}
fn check(c: &Vn, o: &mut Obs) -> Check {
    let mut conn = c.conn.build()?;
    for i in 0..3 {
        conn.verif_set_secrets(sp(i), None, None);
    }
    let b = c.bytes();
    o.label_if(c.dcid.len() > 20 || c.scid.len() > 20, "id over 20 bytes");
    o.label_if(c.versions.is_empty(), "no versions");
    o.label_if(c.versions.len() > 1, "several versions");
    o.label_if(c.versions.len() > 1024, "over 1024 versions");
    o.nontrivial_if(!c.versions.is_empty());
    if c.extra.len() % 4 != 0 {
        o.label("not a whole number of entries");
        let r = decode(&b, &conn)?;
        return ensure(r.is_err(), || format!("a list of {} bytes was accepted", b.len() - c.head()));
    }
    let mut versions = c.versions.clone();
    versions.extend(c.extra.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())));
    let want = Seen::Vn { dcid: c.dcid.clone(), scid: c.scid.clone(), versions: versions.clone() };
    same_seen(&decode_ok(&b, &conn)?, &[want.clone()])?;
    // keys make no difference
    same_seen(&decode_ok(&b, &c.conn.build()?)?, &[want])?;
    // every cut: a shorter list at entry boundaries, an error elsewhere
    for n in 1..b.len() {
        if b.len() > 200 && n > 20 && n + 40 < b.len() && (n < c.head() - 3 || n > c.head() + 9) {
            continue;
        }
        o.evals(1);
        let r = decode(&b[..n], &conn)?;
        if n >= c.head() && (n - c.head()) % 4 == 0 {
            let v = versions[..(n - c.head()) / 4].to_vec();
            same_seen(&see_all(&lib("decode_packets", r)?)?, &[Seen::Vn { dcid: c.dcid.clone(), scid: c.scid.clone(), versions: v }])?;
        } else {
            ensure(r.is_err(), || format!("version negotiation cut to {n} of {} bytes (header {}) was accepted", b.len(), c.head()))?;
        }
        if n % 3 == 0 {
            let r = guard("decode_packets", || decode_packets(&mut Bs::with_error(&b, n), &conn).map(|p| view(&p[0]).version_negotiation.map(|x| x.2.len())))?;
            ensure(r.is_err(), || format!("stream error at byte {n} not reported: {r:?}"))?;
        }
    }
    Ok(())
}
fn id() -> BoxedStrategy<Bytes> {
    prop_oneof![4 => any_cid(), 1 => cid(21..=40), 1 => cid(250..=255), 1 => (0usize..=255).prop_flat_map(|n| cid(n..=n))].boxed()
}
fn versions() -> BoxedStrategy<Vec<u32>> {
    let one = || prop_oneof![2 => Just(1u32), 1 => Just(0u32), 1 => (0u8..16).prop_map(|x| 0x0a0a0a0a | (x as u32) << 28 | (x as u32) << 20 | (x as u32) << 12 | (x as u32) << 4), 3 => any::<u32>(), 1 => (0u32..32).prop_map(|k| 1 << k), 1 => Just(0x6b3343cf), 1 => dict::ints(u32::MAX as u64).prop_map(|v| v as u32)];
    prop_oneof![1 => Just(vec![]), 6 => vec(one(), 1..8), 1 => vec(one(), 8..80), 1 => vec(one(), 200..400), 1 => dict::lens(400).prop_flat_map(move |n| vec(one(), n..=n))].boxed()
}
fn vns() -> BoxedStrategy<Vn> {
    (some_conn(), any::<u8>(), id(), id(), versions(), prop_oneof![5 => Just(Bytes::default()), 3 => content(1..8)])
        .prop_map(|(conn, first, dcid, scid, versions, extra)| Vn { conn, first, dcid, scid, versions, extra })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("lists", "version negotiation packets with any first byte, ids of 0..255 bytes and lists of 0..400 versions, whole or misaligned, at every cut; non-trivial: a version is listed", 8_000, 200_000, || bx(vns()), check),
        law("long-lists", "lists of 400 versions up to the most a UDP payload holds; non-trivial: a version is listed", 60, 2_000, || {
            bx((vns(), prop_oneof![1 => 400u32..16_240, 1 => 16_000u32..16_240, 1 => 1020u32..1030, 1 => 4090u32..4100, 1 => dict::lens(16_240).prop_map(|n| n as u32)], any::<u32>()).prop_map(|(v, n, k)| Vn { versions: (0..n).map(|i| k.wrapping_mul(i.wrapping_add(k >> 7))).collect(), ..v }))
        }, check),
        sweep("id-lengths", "every id length from 0 to 255 on either side with every list length 0..3 entries and every misalignment, enumerated; non-trivial: a version is listed", |_| {
            Box::new((0..=255u8).flat_map(|n| {
                (0..8u8).map(move |k| Vn {
                    conn: Conn { server: false, cid: Bytes(vec![]), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] },
                    first: n.wrapping_mul(37) ^ k,
                    dcid: Bytes((0..if k & 1 == 0 { n } else { 8 }).map(|i| i ^ 0x77).collect()),
                    scid: Bytes((0..if k & 1 == 0 { 5 } else { n }).map(|i| i ^ 0x99).collect()),
                    versions: (0..(k as u32 / 2)).map(|i| 0x01020304u32.wrapping_mul(i + 1)).collect(),
                    extra: Bytes(vec![0xee; if n % 4 == 3 { (k % 4) as usize } else { 0 }]),
                })
            }))
        }, check),
    ]
}
