//! Variable-length integers.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::varint::*;
use crate::streams::Bs;
use proptest::prelude::*;
use quic_sea::verif::utils::{decode_var_int, encode_var_int, var_int_from_stream, var_int_with_bytes_from_stream};
use serde::{Deserialize, Serialize};

fn check_encode(v: &u64, o: &mut Obs) -> Check {
    o.nontrivial();
    let r = guard("encode_var_int", || encode_var_int(*v))?;
    match min_width(*v) {
        None => {
            o.label("refused");
            ensure(r.is_err(), || format!("{v} does not fit but was encoded as {}", hex(&r.unwrap())))
        }
        Some(w) => {
            o.label(["", "1 byte", "2 bytes", "", "4 bytes", "", "", "", "8 bytes"][w]);
            let b = lib("encode_var_int", r)?;
            ensure(b == enc(*v), || format!("{v} encoded as {}, shortest form is {}", hex(&b), hex(&enc(*v))))
        }
    }
}

/// the three decoders on `form` followed by `tail`
fn decode_all(v: u64, form: &[u8], tail: &[u8]) -> Check {
    let b = [form, tail].concat();
    let mut s = Bs::new(&b);
    let got = lib("var_int_from_stream", guard("var_int_from_stream", || var_int_from_stream(&mut s))?)?;
    ensure(got == v, || format!("var_int_from_stream({}) = {got}, not {v}", hex(form)))?;
    ensure(s.rest() == tail, || format!("var_int_from_stream({}) left {} unread, not {}", hex(&b), hex(s.rest()), hex(tail)))?;
    let mut s = Bs::new(&b);
    let (got, raw) = lib("var_int_with_bytes", guard("var_int_with_bytes_from_stream", || var_int_with_bytes_from_stream(&mut s))?)?;
    ensure(got == v && raw == form, || format!("var_int_with_bytes_from_stream({}) = {got} / {}", hex(form), hex(&raw)))?;
    ensure(s.rest() == tail, || format!("var_int_with_bytes_from_stream({}) left {}", hex(&b), hex(s.rest())))?;
    let (got, n) = lib("decode_var_int", guard("decode_var_int", || decode_var_int(&b))?)?;
    ensure(got == v && n == form.len(), || format!("decode_var_int({}) = {got} in {n} bytes, not {v} in {}", hex(&b), form.len()))
}
/// all cut and stream-error positions
fn broken_all(form: &[u8], o: &mut Obs) -> Check {
    for cut in 0..form.len() {
        o.evals(3);
        let b = &form[..cut];
        let r = guard("var_int_from_stream", || var_int_from_stream(&mut Bs::new(b)))?;
        ensure(r.is_err(), || format!("var_int_from_stream accepted {} cut from {}", hex(b), hex(form)))?;
        let r = guard("var_int_with_bytes_from_stream", || var_int_with_bytes_from_stream(&mut Bs::new(b)))?;
        ensure(r.is_err(), || format!("var_int_with_bytes_from_stream accepted {} cut from {}", hex(b), hex(form)))?;
        let r = guard("decode_var_int", || decode_var_int(b))?;
        ensure(r.is_err(), || format!("decode_var_int accepted {} cut from {}", hex(b), hex(form)))?;
        let long = [form, &[0u8; 16][..]].concat();
        let r = guard("var_int_from_stream", || var_int_from_stream(&mut Bs::with_error(&long, cut)))?;
        ensure(r.is_err(), || format!("stream error at byte {cut} of {} not reported", hex(form)))?;
        let r = guard("var_int_with_bytes_from_stream", || var_int_with_bytes_from_stream(&mut Bs::with_error(&long, cut)))?;
        ensure(r.is_err(), || format!("stream error at byte {cut} of {} not reported", hex(form)))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Dec {
    v: u64,
    sel: u8,
    tail: Bytes,
}
fn check_decode(c: &Dec, o: &mut Obs) -> Check {
    let w = pick_width(c.v, c.sel);
    let form = enc_w(c.v, w);
    o.label_if(Some(w) != min_width(c.v), "longer than needed");
    o.label_if(Some(w) == min_width(c.v), "shortest");
    o.nontrivial_if(w > 1);
    o.evals(3);
    decode_all(c.v, &form, &c.tail)?;
    broken_all(&form, o)
}

/// every 1- and 2-byte encoding, and the ends of the 4- and 8-byte ones
fn check_exhaustive(raw: &Bytes, o: &mut Obs) -> Check {
    let (v, w) = Rd::new(raw).varint_w().unwrap();
    assert_eq!(w, raw.len());
    o.nontrivial();
    o.evals(3);
    decode_all(v, raw, &[0xff, 0x00, 0x40])?;
    decode_all(v, raw, &[])?;
    broken_all(raw, o)?;
    if min_width(v) == Some(w) {
        let b = lib("encode_var_int", guard("encode_var_int", || encode_var_int(v))?)?;
        ensure(b == raw.0, || format!("encode_var_int({v}) = {}, not {}", hex(&b), hex(raw)))?;
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        law("encode", "64-bit values dense around every power of two; all are non-trivial", 120_000, 4_000_000, || bx(u64s()), check_encode),
        law(
            "decode",
            "a value, a legal width and following bytes, plus every cut and stream-error position; non-trivial: more than one byte wide",
            60_000,
            2_000_000,
            || bx((vi(), 0u8..4, content(0..12)).prop_map(|(v, sel, tail)| Dec { v, sel, tail })),
            check_decode,
        ),
        sweep(
            "short-forms",
            "every 1-byte and 2-byte encoding, and every first byte of the longer forms with extreme tails, enumerated; all non-trivial",
            |_| {
                let one = (0u8..64).map(|b| Bytes(vec![b]));
                let two = (0x4000u16..0x8000).map(|v| Bytes(v.to_be_bytes().to_vec()));
                let more = (0x80u8..=0xff).flat_map(|b| {
                    let n = if b < 0xc0 { 3 } else { 7 };
                    [0x00u8, 0x01, 0x7f, 0x80, 0xff].into_iter().map(move |t| {
                        let mut v = vec![b];
                        v.extend(std::iter::repeat(t).take(n));
                        Bytes(v)
                    })
                });
                Box::new(one.chain(two).chain(more))
            },
            check_exhaustive,
        ),
    ]
}
