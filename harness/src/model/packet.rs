//! RFC 9000 section 17 packets and RFC 9001 section 5 protection, sender and receiver side.
use super::crypto::Keys;
use super::varint::*;
use crate::gen::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Initial,
    ZeroRtt,
    Handshake,
    OneRtt,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct P {
    pub kind: Kind,
    pub version: u32,
    pub dcid: Bytes,
    pub scid: Bytes,
    pub token: Bytes,
    /// varint width choices for the token length and the length field
    pub token_w: u8,
    pub len_w: u8,
    pub pn: u64,
    pub pn_len: u8,
    pub spin: bool,
    pub phase: bool,
}

impl P {
    /// unprotected first byte
    pub fn first(&self) -> u8 {
        let l = self.pn_len - 1;
        match self.kind {
            Kind::Initial => 0xc0 | l,
            Kind::ZeroRtt => 0xd0 | l,
            Kind::Handshake => 0xe0 | l,
            Kind::OneRtt => 0x40 | (self.spin as u8) << 5 | (self.phase as u8) << 2 | l,
        }
    }
    /// header up to the end of the connection ids, unprotected
    pub fn id_part(&self) -> Vec<u8> {
        let mut h = vec![self.first()];
        if self.kind == Kind::OneRtt {
            h.extend_from_slice(&self.dcid);
        } else {
            h.extend_from_slice(&self.version.to_be_bytes());
            h.push(self.dcid.len() as u8);
            h.extend_from_slice(&self.dcid);
            h.push(self.scid.len() as u8);
            h.extend_from_slice(&self.scid);
        }
        h
    }
    /// Protects `payload`. `length` overrides the length field (for malformed packets).
    pub fn seal_with(&self, k: &Keys, payload: &[u8], length: Option<u64>) -> Vec<u8> {
        let mut h = self.id_part();
        if self.kind == Kind::Initial {
            let n = self.token.len() as u64;
            h.extend(enc_w(n, pick_width(n, self.token_w)));
            h.extend_from_slice(&self.token);
        }
        if self.kind != Kind::OneRtt {
            let n = length.unwrap_or(self.pn_len as u64 + payload.len() as u64 + 16);
            h.extend(enc_w(n, pick_width(n, self.len_w)));
        }
        let pn_at = h.len();
        h.extend_from_slice(&self.pn.to_be_bytes()[8 - self.pn_len as usize..]);
        let ct = k.seal(self.pn, &h, payload);
        let mut out = h;
        out.extend_from_slice(&ct);
        // header protection; a sample that would run past the end cannot be taken
        let at = pn_at + 4;
        if out.len() >= at + 16 {
            let mask = k.mask(&out[at..at + 16]);
            out[0] ^= mask[0] & if self.kind == Kind::OneRtt { 0x1f } else { 0x0f };
            for i in 0..self.pn_len as usize {
                out[pn_at + i] ^= mask[1 + i];
            }
        }
        out
    }
    /// As `seal`, authenticating only part of the header: 0 nothing, 1 all but the first byte,
    /// 2 up to the connection ids, 3 all but the packet number, 4 the packet number alone.
    pub fn seal_partial(&self, k: &Keys, payload: &[u8], part: u8) -> Vec<u8> {
        let whole = self.seal_with(&Keys { hp: vec![0; 16], ..k.clone() }, payload, None);
        let body = self.pn_len as usize + payload.len() + 16;
        let pn_at = whole.len() - body;
        let mut h = whole[..pn_at].to_vec();
        h[0] = self.first();
        h.extend_from_slice(&self.pn.to_be_bytes()[8 - self.pn_len as usize..]);
        let ad = match part {
            0 => &[][..],
            1 => &h[1..],
            2 => &h[..self.id_part().len()],
            3 => &h[..pn_at],
            _ => &h[pn_at..],
        };
        let ct = k.seal(self.pn, ad, payload);
        let mut out = h.clone();
        out.extend_from_slice(&ct);
        let at = pn_at + 4;
        let mask = k.mask(&out[at..at + 16]);
        out[0] ^= mask[0] & if self.kind == Kind::OneRtt { 0x1f } else { 0x0f };
        for i in 0..self.pn_len as usize {
            out[pn_at + i] ^= mask[1 + i];
        }
        out
    }
    pub fn seal(&self, k: &Keys, payload: &[u8]) -> Vec<u8> {
        assert!(payload.len() + self.pn_len as usize >= 4, "sender must pad");
        self.seal_with(k, payload, None)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Opened {
    pub kind: Kind,
    pub first: u8,
    pub version: u32,
    pub dcid: Bytes,
    pub scid: Bytes,
    pub token: Bytes,
    pub pn: u64,
    pub pn_len: usize,
    pub payload: Vec<u8>,
    pub consumed: usize,
}

/// Receiver: opens the long-header packet at the start of `b`.
pub fn open_long(b: &[u8], k: &Keys, largest: Option<u64>) -> Result<Opened, String> {
    let s = |_: Short| "cut short".to_string();
    let mut r = Rd::new(b);
    let first = r.u8().map_err(s)?;
    if first & 0xc0 != 0xc0 {
        return Err(format!("first byte {first:02x}: form or fixed bit not set"));
    }
    let kind = match (first >> 4) & 3 {
        0 => Kind::Initial,
        1 => Kind::ZeroRtt,
        2 => Kind::Handshake,
        _ => return Err("retry".into()),
    };
    let version = r.uint(4).map_err(s)? as u32;
    let n = r.u8().map_err(s)?;
    if n > 20 {
        return Err("destination id over 20 bytes".into());
    }
    let dcid = Bytes(r.take(n as u64).map_err(s)?.to_vec());
    let n = r.u8().map_err(s)?;
    if n > 20 {
        return Err("source id over 20 bytes".into());
    }
    let scid = Bytes(r.take(n as u64).map_err(s)?.to_vec());
    let token = if kind == Kind::Initial {
        let n = r.varint().map_err(s)?;
        Bytes(r.take(n).map_err(s)?.to_vec())
    } else {
        Bytes::default()
    };
    let len = r.varint().map_err(s)?;
    let pn_at = r.pos;
    let body = r.take(len).map_err(|_| format!("length field {len} exceeds the packet"))?;
    if body.len() < 20 {
        return Err("too short to sample".into());
    }
    let mask = k.mask(&body[4..20]);
    let first = first ^ (mask[0] & 0x0f);
    if first & 0x0c != 0 {
        return Err(format!("reserved bits set in {first:02x}"));
    }
    let pn_len = (first & 3) as usize + 1;
    let mut h = b[..pn_at + pn_len].to_vec();
    h[0] = first;
    let mut tr = 0u64;
    for i in 0..pn_len {
        h[pn_at + i] ^= mask[1 + i];
        tr = tr << 8 | h[pn_at + i] as u64;
    }
    let pn = decode_pn(largest, tr, pn_len);
    let payload = k.open(pn, &h, &body[pn_len..]).ok_or("authentication failed")?;
    Ok(Opened { kind, first, version, dcid, scid, token, pn, pn_len, payload, consumed: r.pos })
}

/// RFC 9000 appendix A.3
pub fn decode_pn(largest: Option<u64>, truncated: u64, pn_len: usize) -> u64 {
    let expected: i128 = match largest {
        Some(l) => l as i128 + 1,
        None => 0,
    };
    let win = 1i128 << (8 * pn_len);
    let half = win / 2;
    let cand = (expected & !(win - 1)) | truncated as i128;
    let r = if cand <= expected - half && cand < (1i128 << 62) - win {
        cand + win
    } else if cand > expected + half && cand >= win {
        cand - win
    } else {
        cand
    };
    r as u64
}
