//! Fixed-width integers, byte runs and connection ids.
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::streams::Bs;
use proptest::prelude::*;
use quic_sea::verif::error::Error;
use quic_sea::verif::utils::prelude::*;
use quic_sea::verif::utils::*;
use serde::{Deserialize, Serialize};

fn be(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, x| a << 8 | *x as u128)
}

fn int<T>(name: &str, b: &[u8], o: &mut Obs) -> Check
where
    T: FromDatagram<Output = T> + DecodeFromBytes<Output = T> + Into<u128>,
{
    let n = std::mem::size_of::<T>();
    o.evals(2);
    let r = guard(name, || T::decode_from_bytes(b))?;
    let mut s = Bs::new(b);
    let t = guard(name, || T::from_datagram(&mut s))?;
    if b.len() < n {
        ensure(r.is_err(), || format!("{name}::decode_from_bytes accepted {} bytes", b.len()))?;
        return ensure(t.is_err(), || format!("{name}::from_datagram accepted {} bytes", b.len()));
    }
    let want = be(&b[..n]);
    let (v, used) = lib(name, r)?;
    let v: u128 = v.into();
    ensure(v == want && used == n, || format!("{name}::decode_from_bytes({}) = {v:#x} in {used} bytes", hex(b)))?;
    let t: u128 = lib(name, t)?.into();
    ensure(t == want, || format!("{name}::from_datagram({}) = {t:#x}", hex(b)))?;
    ensure(s.rest() == &b[n..], || format!("{name}::from_datagram left {}", hex(s.rest())))?;
    for i in 0..n {
        let e = guard(name, || T::from_datagram(&mut Bs::with_error(b, i)))?;
        ensure(e.is_err(), || format!("{name}: stream error at byte {i} ignored"))?;
    }
    Ok(())
}
fn check_ints(b: &Bytes, o: &mut Obs) -> Check {
    o.nontrivial_if(b.iter().any(|x| *x != 0) && b.len() > 1);
    o.label_if(b.len() < 16, "too short for some widths");
    o.label_if(b.len() >= 16, "long enough for all widths");
    int::<u8>("u8", b, o)?;
    int::<u16>("u16", b, o)?;
    int::<u32>("u32", b, o)?;
    int::<u64>("u64", b, o)?;
    int::<u128>("u128", b, o)?;
    // 20-byte ids
    let mut s = Bs::new(b);
    let r = guard("U160::from_datagram", || U160::from_datagram(&mut s))?;
    if b.len() < 20 {
        ensure(r.is_err(), || format!("U160 read from {} bytes", b.len()))?;
    } else {
        let v = lib("U160::from_datagram", r)?;
        ensure(v.to_bytes()[..] == b[..20], || format!("U160::from_datagram({}) = {}", hex(b), hex(&v.to_bytes())))?;
        ensure(s.rest() == &b[20..], || "U160::from_datagram consumed the wrong number of bytes".into())?;
        for i in 0..20 {
            ensure(guard("U160", || U160::from_datagram(&mut Bs::with_error(b, i)))?.is_err(), || "U160: stream error ignored".into())?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Run {
    b: Bytes,
    n: usize,
}
fn expect<T: PartialEq + std::fmt::Debug>(
    what: &str,
    b: &[u8],
    n: usize,
    want: T,
    f: impl Fn(&mut Bs) -> Result<T, Error>,
) -> Check {
    let mut s = Bs::new(b);
    let r = guard(what, || f(&mut s))?;
    if b.len() < n {
        return ensure(r.is_err(), || format!("{what}: {n} bytes wanted, {} there, no error", b.len()));
    }
    let v = lib(what, r)?;
    ensure(v == want, || {
        let t = |x: String| x.chars().take(300).collect::<String>();
        format!("{what}({} bytes {}) = {}, not {}", n, hex(&b[..n.min(60)]), t(format!("{v:?}")), t(format!("{want:?}")))
    })?;
    ensure(s.rest() == &b[n..], || format!("{what} left {} of {}", s.rest().len(), b.len() - n))?;
    for i in [0, n / 2, n.saturating_sub(1)] {
        if i < n {
            let e = guard(what, || f(&mut Bs::with_error(b, i)))?;
            ensure(e.is_err(), || format!("{what}: stream error at {i} ignored"))?;
        }
    }
    Ok(())
}
fn check_runs(c: &Run, o: &mut Obs) -> Check {
    let (b, n) = (&c.b[..], c.n);
    o.label_if(b.len() < n, "too short");
    o.label_if(b.len() >= n, "complete");
    o.nontrivial_if(n > 0 && !b.is_empty());
    let want = b.get(..n).map(|x| x.to_vec()).unwrap_or_default();
    o.evals(3);
    expect("var_bytes_from_stream", b, n, want.clone(), |s| var_bytes_from_stream(s, n))?;
    let r = guard("decode_bytes", || decode_bytes(b, n))?;
    if b.len() < n {
        ensure(r.is_err(), || "decode_bytes shortened the run".into())?;
    } else {
        let (v, used) = lib("decode_bytes", r)?;
        ensure(v == want && used == n, || format!("decode_bytes({}, {n}) = {} in {used}", hex(&b[..b.len().min(60)]), hex(&v[..v.len().min(60)])))?;
    }
    expect("all_bytes_from_stream", b, b.len(), b.to_vec(), |s| all_bytes_from_stream(s))?;
    for i in [0, b.len() / 2, b.len()] {
        let e = guard("all_bytes_from_stream", || all_bytes_from_stream(&mut Bs::with_error(b, i)))?;
        ensure(e.is_err(), || format!("all_bytes_from_stream: stream error at {i} ignored"))?;
    }
    // make_result_stream yields exactly the slice
    let back: Vec<u8> = guard("make_result_stream", || make_result_stream(b).map(|x| x.unwrap()).collect())?;
    ensure(back == b, || "make_result_stream changed the bytes".into())
}
/// (length, wanted length relative to it, content)
fn check_long_run(c: &(u32, i32, u8), o: &mut Obs) -> Check {
    let (len, d, k) = *c;
    let b: Vec<u8> = (0..len).map(|i| (i.wrapping_mul(2654435761) >> 11) as u8 ^ k).collect();
    let n = (len as i64 + d as i64).max(0) as usize;
    check_runs(&Run { b: Bytes(b), n }, o)
}
fn check_var_u32(c: &Run, o: &mut Obs) -> Check {
    let n = c.n % 5;
    o.nontrivial_if(n > 0 && c.b.len() >= n);
    o.label(["0 bytes", "1 byte", "2 bytes", "3 bytes", "4 bytes"][n]);
    let want = c.b.get(..n).map(be).unwrap_or(0) as u32;
    expect("var_u32_from_stream", &c.b, n, want, |s| var_u32_from_stream(s, n))?;
    let want8 = c.b.get(..8).map(be).unwrap_or(0) as u64;
    expect("fixed_len_dcid_from_stream", &c.b, 8, U160::from(want8), |s| fixed_len_dcid_from_stream(s))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cids {
    a: Bytes,
    b: Bytes,
    tail: Bytes,
}
fn check_cids(c: &Cids, o: &mut Obs) -> Check {
    let n = c.a.len();
    o.nontrivial_if(n > 0);
    o.label_if(n == 0, "empty id");
    o.label_if(n == 20, "20-byte id");
    o.label_if(n > 0 && n < 17, "1..16-byte id");
    o.label_if(n > 16, "17..20-byte id");
    let all = [&c.a[..], &c.tail[..]].concat();
    let id = u160(&c.a)?;
    expect("var_u160_from_stream", &all, n, id, |s| var_u160_from_stream(s, n as u8))?;
    let back = guard("to_var_bytes", || id.to_var_bytes(n))?;
    ensure(back == c.a.0, || format!("id {} written back as {}", hex(&c.a), hex(&back)))?;
    let mut padded = vec![0u8; 20 - n];
    padded.extend_from_slice(&c.a);
    let full = guard("to_bytes", || id.to_bytes())?;
    ensure(full[..] == padded[..], || format!("20-byte form of {} is {}", hex(&c.a), hex(&full)))?;
    // from an integer
    if n == 8 {
        let v = u64::from_be_bytes(c.a[..].try_into().unwrap());
        ensure(U160::from(v) == id, || format!("U160::from({v:#x}) is not the id read from its bytes"))?;
    }
    // equality of ids of the same length; the second id is a variant of the first
    let mut b = c.b.0.clone();
    b.resize(n, 0);
    let other = u160(&b)?;
    ensure((other == id) == (b == c.a.0), || format!("ids {} and {} compare {}", hex(&c.a), hex(&b), other == id))?;
    for i in 0..n * 8 {
        let mut f = c.a.0.clone();
        f[i / 8] ^= 1 << (i % 8);
        o.evals(1);
        ensure(u160(&f)? != id, || format!("ids {} and {} are equal", hex(&c.a), hex(&f)))?;
    }
    // too short
    for k in 0..n {
        let r = guard("var_u160_from_stream", || var_u160_from_stream(&mut Bs::new(&c.a[..k]), n as u8))?;
        ensure(r.is_err(), || format!("{n}-byte id read from {k} bytes"))?;
        let r = guard("var_u160_from_stream", || var_u160_from_stream(&mut Bs::with_error(&c.a, k), n as u8))?;
        ensure(r.is_err(), || format!("stream error at byte {k} of a {n}-byte id ignored"))?;
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("integers", "byte strings of 0..40 bytes read as 8/16/32/64/128/160-bit integers; non-trivial: at least 2 bytes, not all zero", 20_000, 600_000, || bx(content(0..40)), check_ints),
        law(
            "byte-runs",
            "a byte string and a wanted length around its own length; non-trivial: wanted length above 0, input not empty",
            20_000,
            400_000,
            || {
                bx((prop_oneof![50 => content(0..80), 10 => content(250..270), 10 => content(0..2000), dict::weight() => dict_len(2000)], -3i64..4, any::<bool>(), 0usize..3000).prop_map(|(b, d, near, far)| {
                    let n = if near { (b.len() as i64 + d).max(0) as usize } else { far % (b.len() + 40) };
                    Run { b, n }
                }))
            },
            check_runs,
        ),
        law("long-byte-runs", "byte strings of 2000 to 300000 bytes, dense around 2^14, 2^16 and 2^17, and a wanted length around or below their own; all non-trivial", 40, 4_000, || {
            bx((
                prop_oneof![
                    2 => prop::sample::select(vec![4096u32, 16384, 32768, 65536, 131072]).prop_flat_map(|p| p - 3..p + 4),
                    1 => 2000u32..300_000,
                    1 => dict::lens(300_000).prop_map(|n| n as u32),
                ],
                prop_oneof![3 => -3i32..4, 1 => -70_000i32..10],
                any::<u8>(),
            ))
        }, check_long_run),
        law("var-u32", "0..4-byte integers and 8-byte ids from streams of 0..16 bytes; non-trivial: complete and not empty", 20_000, 400_000, || bx((content(0..16), 0usize..5).prop_map(|(b, n)| Run { b, n })), check_var_u32),
        law(
            "connection-ids",
            "ids of every length 0..20, a second id, and every single-bit variant; non-trivial: not empty",
            12_000,
            300_000,
            || bx((any_cid(), any_cid(), content(0..6)).prop_map(|(a, b, tail)| Cids { a, b, tail })),
            check_cids,
        ),
    ]
}
