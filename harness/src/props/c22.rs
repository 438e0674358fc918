//! Errors map to the RFC 9000 transport error codes.
use crate::dict;
use crate::engine::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::error::Error;
use std::collections::HashMap;

const MESSAGES: [&str; 8] = ["", "x", "no error", "connection refused", "flow control error", "protocol violation", "\u{0}\u{ffff}", "too few bytes to encode truncated packet number"];

/// RFC 9000 section 20.1
fn table(msg: &'static str) -> Vec<(Error, u64)> {
    vec![
        (Error::NoError, 0x00),
        (Error::InternalError(msg), 0x01),
        (Error::ConnectionRefused, 0x02),
        (Error::FlowControlError, 0x03),
        (Error::StreamLimitError, 0x04),
        (Error::StreamStateError, 0x05),
        (Error::FinalSizeError, 0x06),
        (Error::FrameEncodingError, 0x07),
        (Error::TransportParameterError, 0x08),
        (Error::ConnectionIdLimitError, 0x09),
        (Error::ProtocolViolation, 0x0a),
        (Error::InvalidToken, 0x0b),
        (Error::ApplicationError, 0x0c),
        (Error::CryptoBufferExceeded, 0x0d),
        (Error::KeyUpdateError, 0x0e),
        (Error::AeadLimitReached, 0x0f),
        (Error::NoViablePath, 0x10),
    ]
}
fn check(c: &(u8, u8), o: &mut Obs) -> Check {
    let msg = MESSAGES[c.1 as usize % MESSAGES.len()];
    let (e, want) = table(msg)[c.0 as usize % 17].clone();
    o.nontrivial();
    let got = guard("to_error_byte", || e.to_error_byte())? as u64;
    ensure(got == want, || format!("{e:?} maps to {got:#x}, RFC 9000 registers {want:#x}"))
}
/// a random subset of errors, cloned, in any order: codes are a function of the kind and distinct
fn check_distinct(c: &Vec<(u8, u8)>, o: &mut Obs) -> Check {
    let mut seen: HashMap<u64, u8> = HashMap::new();
    o.nontrivial_if(c.len() > 1);
    for (k, m) in c {
        let (e, _) = table(MESSAGES[*m as usize % MESSAGES.len()])[*k as usize % 17].clone();
        let code = guard("to_error_byte", || e.clone().to_error_byte())? as u64;
        let prev = *seen.entry(code).or_insert(k % 17);
        ensure(prev == k % 17, || format!("{e:?} shares code {code:#x} with another kind"))?;
    }
    Ok(())
}

/// errors with any text: words of the sources, of the RFC's error names, and arbitrary ones
fn check_texts(c: &(u8, String), o: &mut Obs) -> Check {
    let msg: &'static str = Box::leak(c.1.clone().into_boxed_str());
    o.nontrivial_if(c.0 % 17 == 1 && !c.1.is_empty());
    for k in [c.0 % 17, 1] {
        let (e, want) = table(msg)[k as usize].clone();
        let got = guard("to_error_byte", || e.to_error_byte())? as u64;
        ensure(got == want, || format!("{e:?} maps to {got:#x}, RFC 9000 registers {want:#x}"))?;
    }
    Ok(())
}
fn texts() -> BoxedStrategy<String> {
    let names = || {
        prop::sample::select(vec![
            "no", "error", "internal", "connection", "refused", "flow", "control", "stream", "limit", "state", "final", "size", "frame", "encoding", "transport", "parameter", "id",
            "protocol", "violation", "invalid", "token", "application", "crypto", "buffer", "exceeded", "key", "update", "aead", "reached", "viable", "path", "tls", "version", "packet",
        ])
        .prop_map(|s| s.to_string())
    };
    let word = || prop_oneof![3 => names(), 3 => dict::words(), 1 => "[a-zA-Z0-9_ ]{0,12}", 1 => any::<char>().prop_map(|c| c.to_string())];
    (proptest::collection::vec(word(), 0..6), prop::sample::select(vec![" ", "", "_", ": "]), 0u8..4)
        .prop_map(|(w, sep, case)| {
            let s = w.join(sep);
            match case {
                0 => s.to_uppercase(),
                1 => s.chars().rev().collect(),
                _ => s,
            }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        sweep("codes", "every error kind with eight messages, enumerated; all non-trivial", |_| Box::new((0u8..17).flat_map(|k| (0u8..8).map(move |m| (k, m)))), check),
        law("texts", "errors with texts made of the RFC's error names, words of the sources and arbitrary characters; non-trivial: an internal error with a text", 6_000, 200_000, || bx((0u8..17, texts())), check_texts),
        law("distinct", "random lists of error kinds; non-trivial: more than one", 4_000, 50_000, || bx(proptest::collection::vec((0u8..17, 0u8..8), 0..20)), check_distinct),
    ]
}
