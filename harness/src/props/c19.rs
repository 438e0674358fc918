//! Transport parameters serialise per RFC 9000 section 18.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::varint::{enc, Rd};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::transport_parameters::{PreferredAddress, TransportParameter as T};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum V {
    Int(u64),
    Bytes(Bytes),
    Flag,
    Addr { v4: [u8; 4], p4: u16, v6: [u8; 16], p6: u16, cid: Bytes, token: [u8; 16] },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Param {
    id: u8,
    v: V,
}
/// RFC 9000 section 18.2: which identifiers carry which kind of value
fn kind_of(id: u64) -> Option<&'static str> {
    Some(match id {
        0x00 | 0x0f | 0x10 => "cid",
        0x02 => "token",
        0x0c => "flag",
        0x0d => "addr",
        0x01 | 0x03..=0x0b | 0x0e => "int",
        _ => return None,
    })
}
fn build(p: &Param) -> Result<T, String> {
    Ok(match (&p.v, p.id) {
        (V::Bytes(b), 0x00) => T::OriginalDestinationConnectionId(b.0.clone()),
        (V::Int(v), 0x01) => T::MaxIdleTimeout(*v),
        (V::Bytes(b), 0x02) => T::StatelessResetToken(b.0.clone().try_into().map_err(|_| "token length")?),
        (V::Int(v), 0x03) => T::MaxUdpPayloadSize(*v),
        (V::Int(v), 0x04) => T::InitialMaxData(*v),
        (V::Int(v), 0x05) => T::InitialMaxStreamDataBidiLocal(*v),
        (V::Int(v), 0x06) => T::InitialMaxStreamDataBidiRemote(*v),
        (V::Int(v), 0x07) => T::InitialMaxStreamDataUni(*v),
        (V::Int(v), 0x08) => T::InitialMaxStreamsBidi(*v),
        (V::Int(v), 0x09) => T::InitialMaxStreamsUni(*v),
        (V::Int(v), 0x0a) => T::AckDelayExponent(*v),
        (V::Int(v), 0x0b) => T::MaxAckDelay(*v),
        (V::Flag, 0x0c) => T::DisableActiveMigration,
        (V::Addr { v4, p4, v6, p6, cid, token }, 0x0d) => {
            T::PreferredAddress(PreferredAddress::verif_new((*v4).into(), *p4, (*v6).into(), *p6, cid.0.clone(), *token))
        }
        (V::Int(v), 0x0e) => T::ActiveConnectionIdLimit(*v),
        (V::Bytes(b), 0x0f) => T::InitialSourceConnectionId(b.0.clone()),
        (V::Bytes(b), 0x10) => T::RetrySourceConnectionId(b.0.clone()),
        _ => unreachable!("generator"),
    })
}
/// a receiver of RFC 9000 section 18
fn parse(b: &[u8]) -> Result<Vec<Param>, String> {
    let mut r = Rd::new(b);
    let mut out = vec![];
    let s = |_| "cut short".to_string();
    while r.left() > 0 {
        let id = r.varint().map_err(s)?;
        let len = r.varint().map_err(s)?;
        let val = r.take(len).map_err(|_| format!("parameter {id:#x}: length {len} exceeds the input"))?;
        let mut v = Rd::new(val);
        let bad = |m: &str| format!("parameter {id:#x}: {m}");
        let value = match kind_of(id).ok_or_else(|| bad("unknown identifier"))? {
            "int" => V::Int(v.varint().map_err(s)?),
            "cid" => {
                if len > 20 {
                    return Err(bad("id over 20 bytes"));
                }
                V::Bytes(Bytes(v.take(len).map_err(s)?.to_vec()))
            }
            "token" => V::Bytes(Bytes(v.take(16).map_err(s)?.to_vec())),
            "flag" => V::Flag,
            _ => {
                let v4 = v.take(4).map_err(s)?.try_into().unwrap();
                let p4 = v.uint(2).map_err(s)? as u16;
                let v6 = v.take(16).map_err(s)?.try_into().unwrap();
                let p6 = v.uint(2).map_err(s)? as u16;
                let n = v.u8().map_err(s)?;
                let cid = Bytes(v.take(n as u64).map_err(s)?.to_vec());
                let token = v.take(16).map_err(s)?.try_into().unwrap();
                V::Addr { v4, p4, v6, p6, cid, token }
            }
        };
        if v.left() != 0 {
            return Err(bad(&format!("{} bytes too long", v.left())));
        }
        out.push(Param { id: id as u8, v: value });
    }
    Ok(out)
}
fn check(ps: &Vec<Param>, o: &mut Obs) -> Check {
    let mut all = vec![];
    let mut kept = vec![];
    for p in ps {
        o.evals(1);
        o.label(match kind_of(p.id as u64).unwrap() {
            "int" => "integer",
            "cid" => "connection id",
            "token" => "token",
            "flag" => "flag",
            _ => "preferred address",
        });
        let t = build(p)?;
        let id = guard("identifier_val", || t.identifier_val())?;
        ensure(id == p.id as u64, || format!("identifier {id:#x}, registered {:#x}", p.id))?;
        let r = guard("serialize", || t.serialize())?;
        if let V::Int(v) = p.v {
            if v > VMAX {
                o.label("too large an integer");
                o.nontrivial();
                ensure(r.is_err(), || format!("parameter {:#x} with {v} was serialised", p.id))?;
                continue;
            }
        }
        let b = lib("serialize", r)?;
        let want: Vec<u8> = match &p.v {
            V::Int(v) => enc(*v),
            V::Bytes(b) => b.0.clone(),
            V::Flag => vec![],
            V::Addr { v4, p4, v6, p6, cid, token } => [&v4[..], &p4.to_be_bytes(), v6, &p6.to_be_bytes(), &[cid.len() as u8], cid, token].concat(),
        };
        let want = [&enc(p.id as u64)[..], &enc(want.len() as u64), &want].concat();
        let got = parse(&b).map_err(|e| format!("{p:?} serialised to {}: {e}", hex(&b)))?;
        ensure(got == [p.clone()], || format!("{p:?} parses back as {got:?} from {}", hex(&b)))?;
        ensure(b == want, || format!("{p:?} serialised to {} expected {}", hex(&b), hex(&want)))?;
        all.extend(b);
        kept.push(p.clone());
    }
    o.nontrivial_if(!kept.is_empty());
    let got = parse(&all)?;
    ensure(got == kept, || format!("{} parameters parse back as {}", kept.len(), got.len()))
}
/// addresses, the special ones among them
fn v4s() -> BoxedStrategy<[u8; 4]> {
    let b = prop::sample::select(vec![0u8, 1, 10, 100, 127, 169, 172, 192, 224, 239, 240, 254, 255]);
    prop_oneof![
        2 => any::<[u8; 4]>(),
        1 => prop::sample::select(vec![[0u8; 4], [127, 0, 0, 1], [255; 4], [10, 0, 0, 1], [192, 168, 0, 1], [169, 254, 0, 1], [224, 0, 0, 1], [192, 0, 2, 1]]),
        1 => (b, any::<[u8; 3]>()).prop_map(|(a, [b, c, d])| [a, b, c, d]),
    ]
    .boxed()
}
fn v6s() -> BoxedStrategy<[u8; 16]> {
    let heads: Vec<Vec<u8>> = vec![vec![], vec![0; 10], vec![0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff], vec![0; 12], vec![0; 15], vec![0; 16], vec![0xff], vec![0xff; 16], vec![0xfe, 0x80, 0, 0, 0, 0, 0, 0], vec![0xfc], vec![0xfd], vec![0x20, 1, 0x0d, 0xb8], vec![0x20, 2], vec![0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0]];
    prop_oneof![
        2 => any::<[u8; 16]>(),
        1 => Just([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
        4 => (prop::sample::select(heads), any::<[u8; 16]>()).prop_map(|(h, mut b)| {
            b[..h.len()].copy_from_slice(&h);
            b
        }),
    ]
    .boxed()
}
fn ports() -> BoxedStrategy<u16> {
    prop_oneof![2 => any::<u16>(), 1 => prop::sample::select(vec![0u16, 1, 53, 80, 443, 1023, 1024, 4433, 8443, 0x7fff, 0x8000, 0xffff])].boxed()
}
fn param_of(id: u8) -> BoxedStrategy<Param> {
    let v = match kind_of(id as u64).unwrap() {
        "int" => prop_oneof![6 => vi(), 1 => u64s()].prop_map(V::Int).boxed(),
        "cid" => any_cid().prop_map(V::Bytes).boxed(),
        "token" => cid(16..=16).prop_map(V::Bytes).boxed(),
        "flag" => Just(V::Flag).boxed(),
        _ => (v4s(), ports(), v6s(), ports(), (1usize..=20).prop_flat_map(|n| cid(n..=n)), any::<[u8; 16]>())
            .prop_map(|(v4, p4, v6, p6, cid, token)| V::Addr { v4, p4, v6, p6, cid, token })
            .boxed(),
    };
    v.prop_map(move |v| Param { id, v }).boxed()
}
fn param() -> BoxedStrategy<Param> {
    (0u8..=0x10).prop_flat_map(param_of).boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("sequences", "sequences of 1..20 parameters with any values, each compared with RFC 9000 section 18.2 and all parsed back together; non-trivial: a parameter was serialised or refused", 15_000, 400_000, || bx(vec(param(), 1..20)), check),
        law("single", "single parameters; non-trivial: serialised or refused", 30_000, 600_000, || bx(vec(param(), 1..2)), check),
        sweep("integers", "every integer parameter with every value around the varint boundaries and every power of two, enumerated; non-trivial: serialised or refused", |_| {
            Box::new((0u8..=0x10).filter(|i| kind_of(*i as u64) == Some("int")).flat_map(|id| {
                (0u32..64).flat_map(move |k| [-1i64, 0, 1].into_iter().map(move |d| vec![Param { id, v: V::Int((1u64 << k).wrapping_add(d as u64)) }])).chain(std::iter::once(vec![Param { id, v: V::Int(u64::MAX) }]))
            }))
        }, check),
    ]
}
