//! Glue between the laws and the library.
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::Keys;
use crate::model::frame::*;
use crate::model::packet::{decode_pn, Kind, P};
use crate::streams::Bs;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::connection::{Connection, PacketNumberSpace};
use quic_sea::verif::error::Error;
use quic_sea::verif::frame::{serialize_frames, Frame};
use quic_sea::verif::packet::{decode_packets, view, Packet, PacketType};
use quic_sea::verif::quictls::{Secrets, TLS13_AES_128_GCM_SHA256};
use quic_sea::verif::utils::prelude::U160;
use quic_sea::verif::utils::var_u160_from_stream;
use quic_sea::verif::version::Version;
use serde::{Deserialize, Serialize};

pub const INITIAL: usize = 0;
pub const HANDSHAKE: usize = 1;
pub const APP: usize = 2;

pub fn sp(i: usize) -> PacketNumberSpace {
    match i {
        INITIAL => PacketNumberSpace::Initial,
        HANDSHAKE => PacketNumberSpace::Handshake,
        _ => PacketNumberSpace::Application,
    }
}
pub fn space_of(k: Kind) -> usize {
    match k {
        Kind::Initial => INITIAL,
        Kind::Handshake => HANDSHAKE,
        _ => APP,
    }
}
/// library result to harness result
pub fn lib<T>(what: &str, r: Result<T, Error>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: unexpected error {e:?}"))
}
pub fn u160(b: &[u8]) -> Result<U160, String> {
    lib("var_u160_from_stream", var_u160_from_stream(&mut Bs::new(b), b.len() as u8))
}

/// A connection in some role with some keys and receive state.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Conn {
    pub server: bool,
    /// the id the Initial keys come from
    pub cid: Bytes,
    pub scid: Option<Bytes>,
    /// (local, remote) traffic secrets
    pub hs: Option<(Bytes, Bytes)>,
    pub app: Option<(Bytes, Bytes)>,
    /// largest packet number received per space
    pub largest: [Option<u64>; 3],
    /// which secret of the handshake and application pair is not installed: 0 none, 1 local, 2 remote
    #[serde(default)]
    pub miss: [u8; 2],
}
impl Conn {
    pub fn build(&self) -> Result<Connection, String> {
        let mut c = lib(
            "Connection::new",
            Connection::new(self.server, Version::V1, u160(&self.cid)?, self.cid.len()),
        )?;
        if let Some(s) = &self.scid {
            c.set_scid(u160(s)?, s.len());
        }
        for (i, s) in [(HANDSHAKE, &self.hs), (APP, &self.app)] {
            if let Some((l, r)) = s {
                let mk = |x: &[u8]| lib("Secrets::from_secret", Secrets::from_secret(&TLS13_AES_128_GCM_SHA256, x));
                let m = self.miss[i - 1];
                let l = if m == 1 { None } else { Some(mk(l)?) };
                let r = if m == 2 { None } else { Some(mk(r)?) };
                c.verif_set_secrets(sp(i), l, r);
            }
        }
        for i in 0..3 {
            c.verif_set_largest_remote(sp(i), self.largest[i]);
        }
        Ok(c)
    }
    /// keys the peer sends with
    pub fn remote_keys(&self, space: usize) -> Option<Keys> {
        match space {
            INITIAL => Some(Keys::initial(!self.server, &self.cid)),
            HANDSHAKE => self.hs.as_ref().filter(|_| self.miss[0] != 2).map(|s| Keys::from_secret(&s.1)),
            _ => self.app.as_ref().filter(|_| self.miss[1] != 2).map(|s| Keys::from_secret(&s.1)),
        }
    }
    /// keys this side sends with
    pub fn local_keys(&self, space: usize) -> Option<Keys> {
        match space {
            INITIAL => Some(Keys::initial(self.server, &self.cid)),
            HANDSHAKE => self.hs.as_ref().filter(|_| self.miss[0] != 1).map(|s| Keys::from_secret(&s.0)),
            _ => self.app.as_ref().filter(|_| self.miss[1] != 1).map(|s| Keys::from_secret(&s.0)),
        }
    }
}

/// largest received number: none, small, around every power of two, up to near 2^62
pub fn largest() -> BoxedStrategy<Option<u64>> {
    prop_oneof![
        2 => Just(None),
        2 => (0u64..600).prop_map(Some),
        4 => vi().prop_map(|v| Some(v.min(VMAX - 1))),
    ]
    .boxed()
}
pub fn secrets2() -> BoxedStrategy<(Bytes, Bytes)> {
    (secret(), secret()).boxed()
}
/// a connection with keys in every space
pub fn full_conn() -> BoxedStrategy<Conn> {
    (any::<bool>(), any_cid(), any_cid(), secrets2(), secrets2(), [largest(), largest(), largest()])
        .prop_map(|(server, cid, scid, hs, app, largest)| Conn { server, cid, scid: Some(scid), hs: Some(hs), app: Some(app), largest, miss: [0; 2] })
        .boxed()
}
/// a connection that can receive in every space, sometimes without being able to send
pub fn recv_conn() -> BoxedStrategy<Conn> {
    (full_conn(), any::<[bool; 2]>(), 0u8..3)
        .prop_map(|(c, m, k)| Conn { miss: if k == 0 { m.map(|x| x as u8) } else { [0; 2] }, ..c })
        .boxed()
}
/// a connection that can send in every space, sometimes without being able to receive
pub fn send_conn() -> BoxedStrategy<Conn> {
    (full_conn(), any::<[bool; 2]>(), 0u8..3)
        .prop_map(|(c, m, k)| Conn { miss: if k == 0 { m.map(|x| 2 * x as u8) } else { [0; 2] }, ..c })
        .boxed()
}
/// a connection with keys in any subset of spaces
pub fn some_conn() -> BoxedStrategy<Conn> {
    (any::<bool>(), any_cid(), option::of(any_cid()), option::of(secrets2()), option::of(secrets2()), [largest(), largest(), largest()], prop_oneof![2 => Just([0u8; 2]), 1 => [0u8..3, 0u8..3]])
        .prop_map(|(server, cid, scid, hs, app, largest, miss)| Conn { server, cid, scid, hs, app, largest, miss })
        .boxed()
}

/// whether RFC 9000 table 3 allows the frame in the packet
pub fn allowed(k: Kind, f: &F) -> bool {
    match k {
        Kind::OneRtt => true,
        Kind::ZeroRtt => !matches!(
            f,
            F::Ack { .. } | F::Crypto { .. } | F::HandshakeDone | F::NewToken { .. } | F::PathResponse(_) | F::RetireCid(_)
        ),
        _ => matches!(
            f,
            F::Padding | F::Ping | F::Ack { .. } | F::Crypto { .. } | F::Close { frame_type: Some(_), .. }
        ),
    }
}

/// A packet a conforming sender makes for a connection.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pk {
    pub p: P,
    pub ws: Vec<W>,
}
impl Pk {
    pub fn payload(&self) -> Vec<u8> {
        encode_all(&self.ws)
    }
    pub fn seal(&self, c: &Conn) -> Vec<u8> {
        self.p.seal(&c.remote_keys(space_of(self.p.kind)).expect("keys"), &self.payload())
    }
    pub fn expect(&self) -> Seen {
        Seen::Pkt {
            kind: self.p.kind,
            header: Bytes(self.p.id_part()),
            token: if self.p.kind == Kind::Initial { self.p.token.clone() } else { Bytes::default() },
            pn: self.p.pn,
            frames: frames_of(&self.ws),
        }
    }
    /// pads the packet so that it has that size when sealed, if it is smaller
    pub fn sized(mut self, c: &Conn, size: Option<usize>) -> Self {
        if let Some(size) = size {
            let now = self.seal(c).len();
            for _ in now..size {
                self.ws.insert(0, W { f: F::Padding, w: vec![], off: false, len: true });
            }
            // the length field may have grown
            let now = self.seal(c).len();
            if now > size && now - size < 8 {
                self.ws.drain(..(now - size).min(self.ws.iter().take_while(|w| w.f == F::Padding).count()));
                self = self.fix(c);
            }
        }
        self
    }
    /// makes the packet one this sender could send to `c`: number inside the window, frames allowed,
    /// payload long enough to sample
    pub fn fix(mut self, c: &Conn) -> Self {
        let l = c.largest[space_of(self.p.kind)];
        let tr = self.p.pn & ((1u64 << (8 * self.p.pn_len)) - 1);
        self.p.pn = decode_pn(l, tr, self.p.pn_len as usize);
        let k = self.p.kind;
        self.ws.retain(|w| allowed(k, &w.f));
        while self.payload().len() + (self.p.pn_len as usize) < 4 {
            self.ws.insert(0, W { f: F::Padding, w: vec![], off: false, len: true });
        }
        if self.ws.is_empty() {
            self.ws.push(W { f: F::Ping, w: vec![], off: false, len: true });
        }
        self
    }
}

/// now and then, a size for the whole packet, from the dictionary or around those of real networks
pub fn sizes(max: usize) -> BoxedStrategy<Option<usize>> {
    let w = dict::weight();
    prop_oneof![95 - w => Just(None), w / 2 => dict::lens(max).prop_map(Some), 2 => prop::sample::select(vec![1200usize, 1252, 1280, 1350, 1452, 1472, 1500]).prop_flat_map(|n| n - 2..n + 3).prop_map(Some)].boxed()
}

pub fn kind_any() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::Initial), Just(Kind::ZeroRtt), Just(Kind::Handshake), Just(Kind::OneRtt)].boxed()
}
pub fn kind_long() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::Initial), Just(Kind::ZeroRtt), Just(Kind::Handshake)].boxed()
}
fn tokens() -> BoxedStrategy<Bytes> {
    prop_oneof![4 => Just(Bytes::default()), 4 => content(1..40), 2 => content(60..70), 1 => content(250..260), 1 => content(300..1200), dict::weight() / 4 => dict_len(2000)].boxed()
}
/// number offsets: the low bytes matter, `fix` finds the number
fn pn_low() -> BoxedStrategy<u64> {
    prop_oneof![3 => any::<u64>(), 2 => u64s(), 1 => 0u64..300].boxed()
}
pub fn packet(kind: BoxedStrategy<Kind>, frames: fn(Kind) -> BoxedStrategy<Vec<W>>) -> BoxedStrategy<Pk> {
    (kind, any_cid(), any_cid(), tokens(), 0u8..4, 0u8..4, pn_low(), 1u8..=4, any::<(bool, bool)>())
        .prop_flat_map(move |(kind, dcid, scid, token, token_w, len_w, pn, pn_len, (spin, phase))| {
            let (dcid, scid, token) = match kind {
                Kind::OneRtt => {
                    let mut d = dcid.0;
                    d.resize(8, 0xa5);
                    (Bytes(d), Bytes::default(), Bytes::default())
                }
                Kind::Initial => (dcid, scid, token),
                _ => (dcid, scid, Bytes::default()),
            };
            let p = P { kind, version: 1, dcid, scid, token, token_w, len_w, pn, pn_len, spin, phase };
            frames(kind).prop_map(move |ws| Pk { p: p.clone(), ws })
        })
        .boxed()
}
fn crypto_w() -> BoxedStrategy<W> {
    (vi(), big_bytes(), vec(0u8..4, 0..4))
        .prop_map(|(off, data, w)| W { f: F::Crypto { off: off.min(VMAX - data.len() as u64), data }, w, off: false, len: true })
        .boxed()
}
fn simple_w() -> BoxedStrategy<W> {
    prop_oneof![Just(F::Padding), Just(F::Ping)].prop_map(|f| W { f, w: vec![], off: false, len: true }).boxed()
}
/// mostly frames that are allowed in the packet, small
pub fn payload_small(k: Kind) -> BoxedStrategy<Vec<W>> {
    match k {
        Kind::Initial | Kind::Handshake => vec(
            prop_oneof![3 => small_wframe(), 1 => simple_w()],
            1..6,
        )
        .boxed(),
        _ => vec(small_wframe(), 1..5).boxed(),
    }
}
/// as `payload_small`, now and then with long data
pub fn payload_any(k: Kind) -> BoxedStrategy<Vec<W>> {
    match k {
        Kind::Initial | Kind::Handshake => vec(
            prop_oneof![4 => wframe(), 2 => crypto_w(), 2 => simple_w()],
            1..6,
        )
        .boxed(),
        _ => wframes(),
    }
}
/// a packet together with a connection that can open it
pub fn conn_packet(kind: fn() -> BoxedStrategy<Kind>, frames: fn(Kind) -> BoxedStrategy<Vec<W>>) -> BoxedStrategy<(Conn, Pk)> {
    (recv_conn(), packet(kind(), frames), sizes(3000))
        .prop_map(|(c, p, size)| {
            let p = p.fix(&c).sized(&c, size);
            (c, p)
        })
        .boxed()
}

/// what the library reports of a packet
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Pkt { kind: Kind, header: Bytes, token: Bytes, pn: u64, frames: Vec<F> },
    Vn { dcid: Bytes, scid: Bytes, versions: Vec<u32> },
    Retry,
}
/// frames as an independent parser reads them from the library's own serialisation
pub fn observe(frames: &[Frame]) -> Result<Vec<F>, String> {
    let b = guard("serialize_frames", || serialize_frames(frames, false))?;
    let b = lib("serialize_frames of decoded frames", b)?;
    parse_frames(&b)
}
pub fn see(p: &Packet) -> Result<Seen, String> {
    let v = guard("header to_bytes", || view(p))?;
    let kind = match v.packet_type {
        PacketType::VersionNegotiation => {
            let (d, s, l) = v.version_negotiation.ok_or("version negotiation packet without its fields")?;
            return Ok(Seen::Vn { dcid: Bytes(d.to_vec()), scid: Bytes(s.to_vec()), versions: l.to_vec() });
        }
        PacketType::Retry => return Ok(Seen::Retry),
        PacketType::Initial => Kind::Initial,
        PacketType::ZeroRtt => Kind::ZeroRtt,
        PacketType::Handshake => Kind::Handshake,
        _ => Kind::OneRtt,
    };
    Ok(Seen::Pkt {
        kind,
        header: Bytes(v.header_bytes.clone()),
        token: Bytes(v.token.unwrap_or(&[]).to_vec()),
        pn: v.packet_number.ok_or("no packet number")?,
        frames: observe(v.frames.unwrap_or(&[]))?,
    })
}
pub fn see_all(ps: &[Packet]) -> Result<Vec<Seen>, String> {
    ps.iter().map(see).collect()
}
/// decodes a datagram
pub fn decode(b: &[u8], c: &Connection) -> Result<Result<Vec<Packet>, Error>, String> {
    let mut s = Bs::new(b);
    guard("decode_packets", || decode_packets(&mut s, c))
}
/// decodes a datagram that must be valid
pub fn decode_ok(b: &[u8], c: &Connection) -> Result<Vec<Seen>, String> {
    let r = decode(b, c)?;
    see_all(&lib("decode_packets", r)?)
}
pub fn short(s: &Seen) -> String {
    let t = format!("{s:?}");
    if t.len() > 700 {
        t.chars().take(700).collect::<String>() + "..."
    } else {
        t
    }
}
pub fn same_seen(got: &[Seen], want: &[Seen]) -> Check {
    if got.len() != want.len() {
        return Err(format!("{} packets decoded, {} sent", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!("packet {i}: decoded {} but sent {}", short(g), short(w)));
        }
    }
    Ok(())
}
pub fn same_frames(got: &[F], want: &[F]) -> Check {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let d = |x: Option<&F>| {
        let t = format!("{x:?}");
        t.chars().take(500).collect::<String>()
    };
    Err(format!("frame {i}: got {} of {}, expected {} of {}", d(got.get(i)), got.len(), d(want.get(i)), want.len()))
}
/// a label for a packet, for the class counts in the evidence
pub fn label_packet(o: &mut Obs, p: &Pk) {
    o.label(match p.p.kind {
        Kind::Initial => "Initial",
        Kind::ZeroRtt => "0-RTT",
        Kind::Handshake => "Handshake",
        Kind::OneRtt => "1-RTT",
    });
    o.label(match p.p.pn_len {
        1 => "pn_len=1",
        2 => "pn_len=2",
        3 => "pn_len=3",
        _ => "pn_len=4",
    });
    o.label_if(!p.p.token.is_empty(), "token");
    o.label_if(p.p.pn > u32::MAX as u64, "pn>32bit");
}

/// makes `pn` the next number the space hands out
#[cfg(feature = "c10")]
pub fn next_is(c: &mut Connection, space: usize, pn: u64) {
    static OFFSET: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    // whether the stored counter is the last number handed out or the next one
    let off = *OFFSET.get_or_init(|| {
        let probe = || {
            let mut c = Connection::new(false, Version::V1, U160::zero(), 8).ok()?;
            c.verif_set_next_pn(sp(APP), 1000);
            c.get_next_pn(sp(APP)).ok().map(|x| x.0)
        };
        match guard("get_next_pn", probe) {
            Ok(Some(1000)) => 0,
            _ => 1,
        }
    });
    c.verif_set_next_pn(sp(space), pn - off);
}

/// Runs a check that depends on the outside (sockets, addresses) up to three times and believes a
/// failure when it repeats. Failures that do not repeat are counted: the outside explains one or
/// two of them in a run, but not many.
pub fn persist(o: &mut Obs, mut once: impl FnMut(u32, &mut Obs) -> Check) -> Check {
    use std::sync::atomic::{AtomicU32, Ordering};
    static GONE: AtomicU32 = AtomicU32::new(0);
    const MANY: u32 = 8;
    let mut last = String::new();
    for i in 0..3 {
        match once(i, o) {
            Ok(()) if i == 0 => return Ok(()),
            Ok(()) => {
                o.label("failure that did not repeat");
                let n = GONE.fetch_add(1, Ordering::Relaxed) + 1;
                return ensure(n < MANY, || format!("{last} (not in every run of a case, but in {n} cases)"));
            }
            Err(e) => last = e,
        }
    }
    Err(last)
}
