//! Shared generators.
use crate::dict;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const VMAX: u64 = (1 << 62) - 1;

/// Byte string, shown and saved as hex.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x'{}'", hex(&self.0))
    }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if s.len() % 2 != 0 {
            return Err(serde::de::Error::custom("odd hex"));
        }
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16))
            .collect::<Result<Vec<_>, _>>()
            .map(Bytes)
            .map_err(serde::de::Error::custom)
    }
}

fn near_power() -> BoxedStrategy<u64> {
    (0u32..64, -2i64..=2)
        .prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64))
        .boxed()
}
fn any_width() -> BoxedStrategy<u64> {
    (1u32..=64, any::<u64>())
        .prop_map(|(w, v)| if w == 64 { v } else { v & ((1u64 << w) - 1) })
        .boxed()
}
/// values made of one repeated byte, or with a single non-zero byte
fn patterned() -> BoxedStrategy<u64> {
    prop_oneof![
        any::<u8>().prop_map(|b| u64::from_be_bytes([b; 8])),
        (any::<u8>(), 0u32..8).prop_map(|(b, i)| (b as u64) << (8 * i)),
    ]
    .boxed()
}
/// any 64-bit value, dense around the places where encodings change
pub fn u64s() -> BoxedStrategy<u64> {
    prop_oneof![100 - dict::weight() => plain_u64s(), dict::weight() => dict::ints(u64::MAX)].boxed()
}
fn plain_u64s() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any_width(),
        3 => near_power(),
        1 => patterned(),
        1 => prop::sample::select(vec![0u64, 1, 63, 64, 255, 256, 16383, 16384, 65535, 65536,
            (1 << 30) - 1, 1 << 30, u32::MAX as u64, 1 << 32, VMAX, VMAX + 1, u64::MAX]),
        1 => any::<u64>(),
    ]
    .boxed()
}
/// any value a varint can hold
pub fn vi() -> BoxedStrategy<u64> {
    prop_oneof![100 - dict::weight() => plain_vi(), dict::weight() => dict::ints(VMAX)].boxed()
}
fn plain_vi() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any_width().prop_map(|v| v & VMAX),
        3 => near_power().prop_map(|v| v & VMAX),
        1 => patterned().prop_map(|v| v & VMAX),
        2 => 0u64..70,
        1 => prop::sample::select(vec![0u64, 1, 63, 64, 16383, 16384, (1 << 30) - 1, 1 << 30,
            u32::MAX as u64, 1 << 32, VMAX - 1, VMAX]),
    ]
    .boxed()
}
pub fn content(len: impl Into<prop::collection::SizeRange> + Clone + 'static) -> BoxedStrategy<Bytes> {
    prop_oneof![
        4 => vec(any::<u8>(), len.clone()).prop_map(Bytes),
        1 => (vec(any::<u8>(), len.clone()), any::<u8>()).prop_map(|(v, b)| Bytes(vec![b; v.len()])),
        1 => vec(prop_oneof![3 => prop::sample::select(vec![0u8, 1, 0x40, 0x7f, 0x80, 0xc0, 0xff]), 1 => dict::ints(255).prop_map(|b| b as u8)], len).prop_map(Bytes),
    ]
    .boxed()
}
/// bytes of a length from the dictionary
pub fn dict_len(max: usize) -> BoxedStrategy<Bytes> {
    dict::lens(max).prop_flat_map(|n| content(n..=n)).boxed()
}
/// bytes of small to medium length, with the varint length boundary at 64 well covered
pub fn bytes() -> BoxedStrategy<Bytes> {
    prop_oneof![
        40 => content(0..20),
        20 => content(60..70),
        10 => content(0..300),
        dict::weight() => dict_len(300),
    ]
    .boxed()
}
/// as `bytes`, sometimes past the 2-byte varint boundary at 16384
pub fn big_bytes() -> BoxedStrategy<Bytes> {
    prop_oneof![
        90 => bytes(),
        6 => content(300..3000),
        dict::weight() / 4 => dict_len(20_000),
        3 => (16380usize..16390, any::<u8>(), any::<u8>()).prop_map(|(n, a, b)| {
            Bytes((0..n).map(|i| a.wrapping_mul(i as u8).wrapping_add(b)).collect())
        }),
    ]
    .boxed()
}
/// long byte strings, up to `max`: of any length, around the powers of two, of dictionary lengths
pub fn huge(max: usize) -> BoxedStrategy<Bytes> {
    let top = usize::BITS - 1 - max.leading_zeros();
    (prop_oneof![3 => max / 8..=max, 3 => (8u32..=top, -40i64..=40).prop_map(|(k, d)| ((1i64 << k) + d).max(0) as usize), 2 => dict::lens(max)], any::<(u8, u8)>())
        .prop_map(move |(n, (a, b))| Bytes((0..n.min(max)).map(|i| ((i as u32).wrapping_mul(2 * a as u32 + 1) >> (b % 8)) as u8 ^ b).collect()))
        .boxed()
}
/// connection id contents of a given length range
pub fn cid(len: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Bytes> {
    prop_oneof![
        4 => vec(any::<u8>(), len.clone()).prop_map(Bytes),
        1 => (vec(any::<u8>(), len.clone()), 0usize..20).prop_map(|(mut v, z)| {
            // leading zeros
            let n = z.min(v.len());
            v[..n].iter_mut().for_each(|b| *b = 0);
            Bytes(v)
        }),
        1 => (vec(any::<u8>(), len), prop::sample::select(vec![0u8, 1, 0x80, 0xff])).prop_map(|(v, b)| Bytes(vec![b; v.len()])),
    ]
    .boxed()
}
/// any connection id of 0..=20 bytes, each length equally likely
pub fn any_cid() -> BoxedStrategy<Bytes> {
    prop_oneof![
        3 => (0usize..=20).prop_flat_map(|n| cid(n..=n)),
        1 => cid(8..=8),
    ]
    .boxed()
}
pub fn secret() -> BoxedStrategy<Bytes> {
    vec(any::<u8>(), 32).prop_map(Bytes).boxed()
}

/// byte strings that are easily taken for one another: the same but for one byte, a prefix, a suffix, an
/// extension, reversed, of 0..=max bytes (exactly `min` when min == max)
pub fn relatives(min: usize, max: usize, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Bytes>> {
    let base = if min == max { vec(any::<u8>(), max).prop_map(Bytes).boxed() } else { prop_oneof![1 => content(0..max + 1), 1 => vec(any::<u8>(), max).prop_map(Bytes), 1 => vec(any::<u8>(), 8.min(max)).prop_map(Bytes)].boxed() };
    (base, vec((0u8..8, any::<u8>(), any::<u8>()), n))
        .prop_map(move |(b, hows)| {
            let mut out = vec![b.clone()];
            for (how, at, x) in hows {
                // of the base, or of the latest
                let mut v = if how % 2 == 0 { b.0.clone() } else { out.last().unwrap().0.clone() };
                let i = if v.is_empty() { 0 } else { at as usize % v.len() };
                match how / 2 {
                    0 if !v.is_empty() => v[i] ^= x.max(1),
                    1 if min < max => v.truncate(i),
                    2 if min < max => v.insert(if x % 2 == 0 { 0 } else { v.len() }, if x % 3 == 0 { 0 } else { x }),
                    _ => v.reverse(),
                }
                v.truncate(max);
                out.push(Bytes(v));
            }
            out
        })
        .boxed()
}
