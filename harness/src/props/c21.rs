//! Waiting for a connection survives any traffic and registers it once.
use super::c15::parse;
use super::c20::{alias, alias_bytes, form, header, Alias, Form};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::crypto::Keys;
use crate::model::packet::{Kind, P};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::quictls::utils::verif::force_connection_ids;
use quic_sea::verif::routing::Socket;
use quic_sea::verif::utils::prelude::U160;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::{SocketAddr, UdpSocket};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Dgm {
    /// a client's first packet: its chosen id, total size aimed for
    New { cid: Bytes, scid: Bytes, size: u16, pn: u8 },
    /// an Initial header with nothing or little behind it
    Tiny { cid: Bytes, scid: Bytes, low: u8, tail: Bytes },
    /// a header for a live connection or a similar id
    To { id: u8, alias: Alias, form: Form, body: Bytes },
    Raw(Bytes),
    /// a raw datagram of a given size
    Big { first: u8, n: u16 },
    /// a sealed Initial cut short
    CutInitial { cid: Bytes, n: u8 },
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sent {
    d: Dgm,
    /// which of two senders
    from: bool,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    live: Vec<u64>,
    sent: Vec<Sent>,
    /// accept connections instead of only waiting for their first datagram
    accept: bool,
    /// the random ids the library draws first, as indices of live ids
    collide: Vec<u8>,
    log: bool,
    /// over IPv6, where it is there
    #[serde(default)]
    v6: bool,
}
/// a loopback address to bind: IPv6 where the sandbox has it
fn host(v6: bool) -> &'static str {
    if v6 && UdpSocket::bind("[::1]:0").is_ok() {
        "[::1]:0"
    } else {
        "127.0.0.1:0"
    }
}
/// a client's first packet
pub fn client_initial(cid: &[u8], scid: &[u8], size: usize, pn: u8) -> Vec<u8> {
    let p = P {
        kind: Kind::Initial,
        version: 1,
        dcid: Bytes(cid.to_vec()),
        scid: Bytes(scid.to_vec()),
        token: Bytes::default(),
        token_w: 0,
        len_w: 2,
        pn: pn as u64,
        pn_len: 1 + pn % 4,
        spin: false,
        phase: false,
    };
    let k = Keys::initial(false, cid);
    let base = p.seal(&k, &[1, 0, 0, 0]).len() - 4;
    let mut pl = vec![0u8; size.saturating_sub(base).max(4)];
    pl[0] = 1;
    p.seal(&k, &pl)
}
/// the largest payload is 20 bytes more over IPv6
fn stretch(n: u16, v6: bool) -> usize {
    n as usize + if v6 && n >= 65_400 { 20 } else { 0 }
}
fn bytes_of(d: &Dgm, ids: &[u64], v6: bool) -> Vec<u8> {
    match d {
        Dgm::New { cid, scid, size, pn } => client_initial(cid, scid, stretch(*size, v6), *pn),
        Dgm::Tiny { cid, scid, low, tail } => {
            let mut b = vec![0xc0 | low & 0x0f, 0, 0, 0, 1, cid.len() as u8];
            b.extend_from_slice(cid);
            b.push(scid.len() as u8);
            b.extend_from_slice(scid);
            b.extend_from_slice(tail);
            b
        }
        Dgm::To { id, alias, form, body } => {
            let i = if ids.is_empty() { 77 } else { ids[*id as usize % ids.len()] };
            [&header(form, &alias_bytes(i, alias))[..], body].concat()
        }
        Dgm::Raw(b) => b.0.clone(),
        Dgm::Big { first, n } => (0..stretch(*n, v6)).map(|i| if i == 0 { *first } else { (i * 31) as u8 }).collect(),
        Dgm::CutInitial { cid, n } => {
            let b = client_initial(cid, &[1, 2, 3], 60, 1);
            // inside the connection ids
            b[..*n as usize % (7 + cid.len())].to_vec()
        }
    }
}
enum Class {
    New,
    Live(u64),
    Drop,
    /// an Initial this property does not speak about
    Skip,
}
fn class(d: &Dgm, b: &[u8], ids: &[u64]) -> Class {
    let Ok(h) = parse(b) else { return Class::Drop };
    if let Ok(x) = <[u8; 8]>::try_from(&h.dcid[..]) {
        let id = u64::from_be_bytes(x);
        if ids.contains(&id) {
            return Class::Live(id);
        }
    }
    match (h.ty, d) {
        ("Initial", Dgm::New { .. } | Dgm::Tiny { .. }) => Class::New,
        ("Initial", _) => Class::Skip,
        _ => Class::Drop,
    }
}

struct World {
    s: Socket,
    to: SocketAddr,
    a: UdpSocket,
    b: UdpSocket,
    ids: Vec<u64>,
    /// destination id each connection's keys come from
    dcids: BTreeMap<u64, Vec<u8>>,
    queues: BTreeMap<u64, Vec<(Vec<u8>, SocketAddr)>>,
}
fn send(s: &UdpSocket, b: &[u8], to: SocketAddr) {
    let n = s.send_to(b, to).expect("send");
    assert_eq!(n, b.len(), "short send");
}
fn wait(w: &World) -> Result<(Vec<u8>, SocketAddr), String> {
    let r = guard("waiting for a connection", || w.s.next_initial())?;
    r.map_err(|e| format!("the wait ended with {e} although an Initial for an unknown id had arrived"))
}
fn accept(w: &mut World, d: &Dgm, forced: &[u64]) -> Check {
    let cid = match d {
        Dgm::New { cid, .. } | Dgm::Tiny { cid, .. } => cid,
        _ => unreachable!(),
    };
    force_connection_ids(forced);
    let s = w.s.clone();
    let r = catch_unwind(AssertUnwindSafe(move || s.accept()));
    force_connection_ids(&[]);
    let claimed = match r {
        Ok(Ok(id)) => Some(id),
        Ok(Err(e)) => return Err(format!("accept ended with {e} although an Initial for an unknown id had arrived")),
        Err(_) => {
            // the handshake after registration is not written yet
            let (m, loc) = last_panic();
            ensure(m.contains("not yet implemented") || m.contains("not implemented"), || format!("accept panicked: {m} at {loc}"))?;
            None
        }
    };
    let now = guard("ids", || w.s.ids())?;
    ensure(now.len() == w.ids.len() + 1, || format!("{} connections after accepting one, {} before", now.len(), w.ids.len()))?;
    let mut fresh = vec![];
    for id in now {
        let b = id.to_bytes();
        ensure(b[..12].iter().all(|x| *x == 0), || format!("issued id {} exceeds 8 bytes", hex(&b)))?;
        let n = u64::from_be_bytes(b[12..].try_into().unwrap());
        if !w.ids.contains(&n) {
            fresh.push(n)
        }
    }
    ensure(fresh.len() == 1, || format!("new ids {fresh:x?}"))?;
    let id = fresh[0];
    let key = U160::from(id);
    if let Some(c) = claimed {
        ensure(c == key, || format!("accept returned {c:x?}, registered {id:#x}"))?;
    }
    // what the connection holds
    let want = u160(cid)?;
    let probe = match d {
        Dgm::New { scid, size, pn, .. } => client_initial(cid, scid, (*size).min(1300) as usize, *pn),
        _ => client_initial(cid, b"abc", 1200, 9),
    };
    let res = guard("looking at the connection", || {
        w.s.with_connection(key, |c| -> Check {
            let (s, sl) = lib("get_scid", c.get_scid())?;
            ensure(s == key && sl == 8, || format!("source id {s:x?} of {sl} bytes, registered under {id:#x}"))?;
            let (d, dl) = c.get_dcid();
            ensure(d == want && dl as usize == cid.len(), || format!("destination id {d:x?} of {dl} bytes, the client chose {}", hex(cid)))?;
            // the client's packet opens, and what is sent is under the server's keys
            decode_ok(&probe, c).map_err(|e| format!("the client's Initial does not open on the accepted connection: {e}"))?;
            let ct = lib("encrypt_local_payload", c.encrypt_local_payload(sp(INITIAL), b"x", b"y", 5))?;
            ensure(ct == Keys::initial(true, cid).seal(5, b"y", b"x"), || "the accepted connection does not send with the server's keys".into())
        })
    })?;
    res.ok_or("the accepted connection is not registered")??;
    w.ids.push(id);
    w.dcids.insert(id, cid.0.clone());
    w.queues.insert(id, vec![]);
    Ok(())
}
/// what the kernel books at most for a datagram it holds
fn booked(n: usize) -> usize {
    1024 + n + if n < 16_000 { n } else { n / 4 }
}
/// of a receive buffer of 208 KiB, with room for one more of the largest
const ROOM: usize = 100_000;
fn once(c: &Case, o: &mut Obs) -> Check {
    let host = host(c.v6);
    let v6 = host.starts_with('[');
    o.label_if(v6, "IPv6");
    let s = Socket::bind(host).expect("bind");
    // what is sent over the loopback is there when the send returns
    s.set_read_timeout(Some(Duration::from_secs(1))).expect("timeout");
    let to = s.local_addr().expect("addr");
    let bind = || UdpSocket::bind(host).expect("bind");
    let mut w = World { s, to, a: bind(), b: bind(), ids: vec![], dcids: BTreeMap::new(), queues: BTreeMap::new() };
    w.s.set_log(c.log);
    for id in &c.live {
        if w.ids.contains(id) {
            continue;
        }
        let cid = id.rotate_left(5).to_be_bytes();
        let mut conn = Conn { server: true, cid: Bytes(cid.to_vec()), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build()?;
        conn.set_scid(U160::from(*id), 8);
        w.s.insert(*id, conn);
        w.ids.push(*id);
        w.dcids.insert(*id, cid.to_vec());
        w.queues.insert(*id, vec![]);
    }
    let (mut accepted, mut noise) = (0u32, 0u32);
    // the sequence always ends in a new connection, so that every datagram is processed
    let last = Sent { d: Dgm::New { cid: Bytes(vec![0xd1, 0x5e, 0xa5, 0xed, 1, 2, 3, 4, 5, 6]), scid: Bytes(vec![9]), size: 1200, pn: 3 }, from: false };
    let mut room = ROOM;
    for sent in c.sent.iter().chain(std::iter::once(&last)) {
        crate::pause::step();
        let b = bytes_of(&sent.d, &w.ids, v6);
        let cl = class(&sent.d, &b, &w.ids);
        match cl {
            Class::Skip => continue,
            Class::New => room = ROOM,
            // the kernel would drop it
            _ if booked(b.len()) > room => continue,
            _ => room -= booked(b.len()),
        }
        let from = if sent.from { &w.a } else { &w.b };
        let addr = from.local_addr().unwrap();
        send(from, &b, w.to);
        o.evals(1);
        o.label_if(b.len() > 4096, "over 4096 bytes");
        o.label_if(b.is_empty(), "empty datagram");
        match cl {
            Class::Skip => {}
            Class::Drop => {
                noise += 1;
                o.label("dropped")
            }
            Class::Live(id) => {
                noise += 1;
                o.label("queued");
                w.queues.get_mut(&id).unwrap().push((b, addr))
            }
            Class::New => {
                accepted += 1;
                if c.accept {
                    let mut forced: Vec<u64> = vec![];
                    if !w.ids.is_empty() {
                        forced.extend(c.collide.iter().map(|k| w.ids[*k as usize % w.ids.len()]));
                    }
                    o.label_if(!forced.is_empty(), "drawn id already taken");
                    accept(&mut w, &sent.d, &forced)?;
                } else {
                    let (g, a) = wait(&w)?;
                    ensure(g == b, || format!("an Initial of {} bytes was returned as {} bytes {}", b.len(), g.len(), hex(&g[..g.len().min(60)])))?;
                    ensure(a == addr, || format!("sent from {addr}, reported from {a}"))?;
                }
            }
        }
    }
    o.label_if(accepted >= 3, "several new connections");
    o.nontrivial_if(noise > 0 || accepted > 1);
    // nothing was lost, invented or moved
    ensure(w.s.ids().len() == w.ids.len(), || format!("{} connections, expected {}", w.s.ids().len(), w.ids.len()))?;
    for id in &w.ids {
        let key = U160::from(*id);
        let got = guard("drain", || w.s.drain(key))?.ok_or_else(|| format!("connection {id:#x} is gone"))?;
        let want = &w.queues[id];
        ensure(got.len() == want.len(), || format!("connection {id:#x}: {} datagrams queued, {} sent", got.len(), want.len()))?;
        for (g, x) in got.iter().zip(want) {
            ensure(g.0 == x.0, || format!("connection {id:#x}: a datagram of {} bytes was queued as {} bytes", x.0.len(), g.0.len()))?;
            ensure(g.1 == x.1, || format!("connection {id:#x}: sent from {}, queued from {}", x.1, g.1))?;
        }
        let dcid = &w.dcids[id];
        let want = u160(dcid)?;
        let r = w.s.with_connection(key, |c| -> Check {
            let (s, sl) = lib("get_scid", c.get_scid())?;
            let (d, dl) = c.get_dcid();
            ensure(s == key && sl == 8 && d == want && dl as usize == dcid.len(), || format!("connection {id:#x} was changed: {c:?}"))
        });
        r.ok_or_else(|| format!("connection {id:#x} is gone"))??;
    }
    Ok(())
}
/// the loopback itself works
fn sanity() {
    let a = UdpSocket::bind("127.0.0.1:0").expect("bind");
    let b = UdpSocket::bind("127.0.0.1:0").expect("bind");
    a.set_read_timeout(Some(Duration::from_secs(3))).expect("timeout");
    b.send_to(b"ping", a.local_addr().unwrap()).expect("send");
    let mut x = [0; 9];
    assert_eq!(a.recv_from(&mut x).expect("recv").0, 4, "loopback");
}
fn check(c: &Case, o: &mut Obs) -> Check {
    // a datagram the kernel lost would look like a defect: believe a failure only when it repeats
    persist(o, |_, o| {
        crate::pause::restart();
        let res = once(c, o);
        if res.is_err() {
            sanity();
        }
        res
    })
}
/// a single wait through very many datagrams
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Storm {
    live: Vec<u64>,
    /// sent over and over
    noise: Vec<Dgm>,
    n: u16,
    log: bool,
}
/// bytes the kernel holds for the socket bound to this IPv4 address
fn unread(to: SocketAddr) -> Option<u64> {
    let t = std::fs::read_to_string("/proc/net/udp").ok()?;
    let port = format!(":{:04X}", to.port());
    t.lines().skip(1).find_map(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        if !f.get(1)?.ends_with(&port) {
            return None;
        }
        u64::from_str_radix(f.get(4)?.split(':').nth(1)?, 16).ok()
    })
}
fn storm_once(c: &Storm, pause: u64, o: &mut Obs) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    s.set_read_timeout(Some(Duration::from_secs(5))).expect("timeout");
    let to = s.local_addr().expect("addr");
    s.set_log(c.log);
    let mut queues: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    for id in &c.live {
        let conn = Conn { server: true, cid: Bytes(id.to_be_bytes().to_vec()), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build()?;
        s.insert(*id, conn);
        queues.insert(*id, vec![]);
    }
    let ids: Vec<u64> = queues.keys().copied().collect();
    let noise: Vec<(Vec<u8>, Class)> = c
        .noise
        .iter()
        .map(|d| {
            let b = bytes_of(d, &ids, false);
            let cl = class(d, &b, &ids);
            (b, cl)
        })
        .filter(|(b, cl)| b.len() <= 1500 && !matches!(cl, Class::New | Class::Skip))
        .collect();
    if noise.is_empty() {
        return Ok(());
    }
    let first = client_initial(&[0xd1, 0x5e, 0xa5, 0xed, 1, 2, 3, 4, 5], &[9], 1200, 3);
    let from = UdpSocket::bind("127.0.0.1:0").expect("bind");
    let addr = from.local_addr().unwrap();
    let n = c.n as usize;
    let done = std::sync::atomic::AtomicBool::new(false);
    let r = std::thread::scope(|sc| {
        let (noise, first, from, done) = (&noise, &first, &from, &done);
        let read = move || {
            let start = std::time::Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(pause));
                if done.load(std::sync::atomic::Ordering::Relaxed) || unread(to) == Some(0) || unread(to).is_none() || start.elapsed() > Duration::from_secs(4) {
                    break;
                }
            }
        };
        sc.spawn(move || {
            let mut room = ROOM;
            for i in 0..n {
                let b = &noise[i % noise.len()].0;
                send(from, b, to);
                // what the kernel books for a datagram is more than its bytes
                room = room.saturating_sub(booked(b.len()));
                if room == 0 {
                    read();
                    room = ROOM;
                }
            }
            read();
            send(from, first, to);
        });
        let r = guard("waiting for a connection", || s.next_initial());
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        r
    })?;
    o.evals(n as u64);
    o.nontrivial();
    o.label_if(n > 1000, "over 1000 datagrams");
    let (g, a) = r.map_err(|e| format!("after {n} datagrams the wait ended with {e} although an Initial for an unknown id had arrived"))?;
    ensure(g == first && a == addr, || format!("after {n} datagrams the wait returned {} bytes {}", g.len(), hex(&g[..g.len().min(60)])))?;
    for i in 0..n {
        if let (b, Class::Live(id)) = &noise[i % noise.len()] {
            queues.get_mut(id).unwrap().push(b.clone());
        }
    }
    for (id, want) in queues {
        o.label_if(want.len() > 256, "over 256 datagrams queued");
        let got = guard("drain", || s.drain(U160::from(id)))?.ok_or_else(|| format!("connection {id:#x} is gone"))?;
        ensure(got.len() == want.len(), || format!("connection {id:#x}: {} datagrams queued, {} sent", got.len(), want.len()))?;
        ensure(got.iter().zip(&want).all(|(g, w)| g.0 == *w && g.1 == addr), || format!("connection {id:#x}: a queued datagram differs from the one sent"))?;
    }
    Ok(())
}
fn storm(c: &Storm, o: &mut Obs) -> Check {
    let mut res = Ok(());
    for pause in [2, 10, 40] {
        res = storm_once(c, pause, o);
        if res.is_ok() {
            return res;
        }
        sanity();
    }
    res
}
fn storms() -> BoxedStrategy<Storm> {
    (live(), prop_oneof![2 => vec(noise(), 1..4), 1 => vec(noise(), 4..20)], prop_oneof![2 => 60u16..600, 2 => 600u16..3000, 1 => 3000u16..9000, 1 => dict::ints(9000).prop_map(|n| n.max(1) as u16)], any::<bool>())
        .prop_map(|(live, noise, n, log)| Storm { live, noise, n, log })
        .boxed()
}
/// waits during which receiving fails
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Failing {
    live: Vec<u64>,
    /// what arrives before each failing wait, and whether a client comes afterwards
    rounds: Vec<(Vec<Dgm>, Option<Bytes>)>,
    ms: u8,
    accept: bool,
    log: bool,
}
fn failing_once(c: &Failing) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    let to = s.local_addr().expect("addr");
    s.set_log(c.log);
    let mut w = World { s, to, a: UdpSocket::bind("127.0.0.1:0").expect("bind"), b: UdpSocket::bind("127.0.0.1:0").expect("bind"), ids: vec![], dcids: BTreeMap::new(), queues: BTreeMap::new() };
    let addr = w.a.local_addr().unwrap();
    for id in &c.live {
        if !w.ids.contains(id) {
            let cid = id.to_be_bytes();
            let mut conn = Conn { server: true, cid: Bytes(cid.to_vec()), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build()?;
            conn.set_scid(U160::from(*id), 8);
            w.s.insert(*id, conn);
            w.ids.push(*id);
            w.dcids.insert(*id, cid.to_vec());
            w.queues.insert(*id, vec![]);
        }
    }
    for (n, (noise, client)) in c.rounds.iter().enumerate() {
        let mut room = ROOM;
        for d in noise {
            let b = bytes_of(d, &w.ids, false);
            if booked(b.len()) > room {
                continue;
            }
            match class(d, &b, &w.ids) {
                Class::New | Class::Skip => continue,
                Class::Live(id) => w.queues.get_mut(&id).unwrap().push((b.clone(), addr)),
                Class::Drop => {}
            }
            room -= booked(b.len());
            send(&w.a, &b, w.to);
        }
        w.s.set_read_timeout(Some(Duration::from_millis(c.ms as u64 + 1))).expect("timeout");
        let before = w.s.ids().len();
        if c.accept {
            let s = w.s.clone();
            match catch_unwind(AssertUnwindSafe(move || s.accept())) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return Err(format!("round {n}: accept succeeded although nobody connects")),
                Err(_) => {
                    let (m, loc) = last_panic();
                    return Err(format!("round {n}: accept panicked when receiving failed: {m} at {loc}"));
                }
            }
        } else if let Ok((b, _)) = guard("waiting for a connection", || w.s.next_initial())? {
            return Err(format!("round {n}: the wait gave {} bytes although nobody connects", b.len()));
        }
        ensure(w.s.ids().len() == before, || format!("round {n}: {} connections after a failed wait, {before} before", w.s.ids().len()))?;
        if let Some(cid) = client {
            w.s.set_read_timeout(Some(Duration::from_secs(3))).expect("timeout");
            let d = Dgm::New { cid: cid.clone(), scid: Bytes(vec![7]), size: 100, pn: 1 };
            let b = bytes_of(&d, &w.ids, false);
            if matches!(class(&d, &b, &w.ids), Class::New) {
                send(&w.a, &b, w.to);
                if c.accept {
                    accept(&mut w, &d, &[])?;
                } else {
                    let (g, a) = wait(&w)?;
                    ensure(g == b && a == addr, || format!("round {n}: an Initial of {} bytes was returned as {} bytes", b.len(), g.len()))?;
                }
            }
        }
    }
    for id in &w.ids {
        let got = guard("drain", || w.s.drain(U160::from(*id)))?.ok_or_else(|| format!("connection {id:#x} is gone"))?;
        ensure(got == w.queues[id], || format!("connection {id:#x}: {} datagrams queued, {} sent", got.len(), w.queues[id].len()))?;
    }
    Ok(())
}
fn failing(c: &Failing, o: &mut Obs) -> Check {
    o.nontrivial();
    o.label_if(c.rounds.iter().any(|r| r.1.is_some()), "a client after a failed wait");
    o.evals(c.rounds.len() as u64);
    // once a wait has gone on, less patience while the case is made smaller
    static HUNG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    let patience = if HUNG.load(std::sync::atomic::Ordering::Relaxed) { 3 } else { 60 };
    let mut res = Ok(());
    for _ in 0..3 {
        // a wait that never ends must not take the check with it
        let (tx, rx) = std::sync::mpsc::channel();
        let c2 = c.clone();
        std::thread::spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| failing_once(&c2))).unwrap_or_else(|_| Err(format!("harness: {:?}", last_panic())));
            let _ = tx.send(r);
        });
        res = match rx.recv_timeout(Duration::from_secs(patience)) {
            Ok(Err(e)) if e.starts_with("harness: ") => panic!("{e}"),
            Ok(r) => r,
            Err(_) => {
                HUNG.store(true, std::sync::atomic::Ordering::Relaxed);
                return Err("the wait goes on although receiving fails".into());
            }
        };
        if res.is_ok() {
            break;
        }
        sanity();
    }
    res
}
fn failings() -> BoxedStrategy<Failing> {
    (live(), vec((vec(noise(), 0..5), proptest::option::of(any_cid())), 1..4), 0u8..8, any::<bool>(), any::<bool>())
        .prop_map(|(live, rounds, ms, accept, log)| Failing { live, rounds, ms, accept, log })
        .boxed()
}
fn new_conn() -> BoxedStrategy<Dgm> {
    let size = prop_oneof![4 => Just(1200u16), 2 => 40u16..100, 2 => 1200u16..4000, 2 => 4090u16..4110, 1 => 4110u16..20000, 1 => 65400u16..=65507, 1 => dict::lens(65_507).prop_map(|n| n.max(60) as u16)];
    prop_oneof![
        5 => (any_cid(), any_cid(), size, any::<u8>()).prop_map(|(cid, scid, size, pn)| Dgm::New { cid, scid, size, pn }),
        1 => (any_cid(), any_cid(), any::<u8>(), content(0..6)).prop_map(|(cid, scid, low, tail)| Dgm::Tiny { cid, scid, low, tail }),
    ]
    .boxed()
}
fn noise() -> BoxedStrategy<Dgm> {
    let sizes = prop_oneof![4 => 0u16..100, 2 => 1000u16..2000, 2 => 4090u16..4110, 1 => any::<u16>().prop_map(|n| n.min(65507)), 1 => dict::lens(65_507).prop_map(|n| n as u16)];
    prop_oneof![
        6 => (0u8..8, alias(), form(), prop_oneof![6 => content(0..60), 1 => content(1200..1500), 1 => (4000usize..9000).prop_map(|n| Bytes((0..n).map(|i| i as u8).collect()))])
            .prop_map(|(id, alias, form, body)| Dgm::To { id, alias, form, body }),
        3 => content(0..60).prop_map(Dgm::Raw),
        1 => Just(Dgm::Raw(Bytes::default())),
        2 => (any::<u8>(), sizes).prop_map(|(first, n)| Dgm::Big { first, n }),
        1 => (any_cid(), any::<u8>()).prop_map(|(cid, n)| Dgm::CutInitial { cid, n }),
    ]
    .boxed()
}
/// batches of traffic between new connections, bounded so that the receive buffer holds each
fn sent(max: usize) -> BoxedStrategy<Vec<Sent>> {
    vec((vec((noise(), any::<bool>()), 0..8), new_conn(), any::<bool>(), 0u8..8), 0..max)
        .prop_map(|batches| {
            let mut out = vec![];
            for (noise, new, from, again) in batches {
                let mut budget = 72_000usize;
                for (d, from) in noise {
                    let n = bytes_of(&d, &[1], true).len();
                    if n <= budget {
                        budget -= n;
                        out.push(Sent { d, from });
                    }
                }
                if again == 0 && budget > 40_000 {
                    // the last datagram once more, from the other sender
                    if let Some(l) = out.last().cloned() {
                        out.push(Sent { from: !l.from, ..l });
                    }
                }
                out.push(Sent { d: new, from });
                if again == 1 {
                    let l = out.last().unwrap().clone();
                    out.push(Sent { from: !l.from, ..l });
                }
            }
            out
        })
        .boxed()
}
fn live() -> BoxedStrategy<Vec<u64>> {
    prop_oneof![1 => Just(vec![]), 4 => vec(any::<u64>(), 1..5), 1 => super::c20::ids()].boxed()
}
fn cases(accept: bool, max: usize) -> BoxedStrategy<Case> {
    (live(), sent(max), vec(0u8..8, 0..4), any::<bool>(), prop::bool::weighted(0.3))
        .prop_map(move |(live, sent, collide, log, v6)| Case { live, sent, accept, collide, log, v6 })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("waiting", "traffic over a loopback UDP socket from two senders: garbage, empty and oversized datagrams, cut headers, packets of every form for live, similar and unknown ids, between new Initials of 7..65527 bytes, over IPv4 and IPv6; non-trivial: noise before an Initial, or several Initials", 1_600, 40_000, || bx(cases(false, 4)), check),
        law("accepting", "the same traffic while connections are accepted, with random ids that collide with live ones first; non-trivial: noise before an Initial, or several Initials", 1_200, 30_000, || bx(cases(true, 5)), check),
        law("pauses", "traffic in which a second or more passes; non-trivial: noise before an Initial, or several Initials", 1, 8, || bx(crate::pause::paused(prop_oneof![cases(false, 4), cases(true, 5)].boxed())), |c, o| crate::pause::with_pause(c, o, check)),
        law("storms", "60 to 9000 datagrams of noise and traffic for live connections during a single wait; all non-trivial", 12, 400, || bx(storms()), storm),
        law("failing", "waits in which receiving fails (a time limit on the socket) after other traffic, then clients on the same socket; all non-trivial", 40, 1_200, || bx(failings()), failing),
        law("many-accepts", "30..300 accepts on one socket; all non-trivial", 16, 300, || {
            bx((prop_oneof![3 => vec((any_cid(), any::<bool>()), 30..60), 1 => vec((any_cid(), any::<bool>()), 60..300)], any::<bool>()).prop_map(|(v, log)| Case {
                live: vec![5, 6],
                sent: v.into_iter().map(|(cid, from)| Sent { d: Dgm::New { cid, scid: Bytes(vec![1]), size: 100, pn: 0 }, from }).collect(),
                accept: true,
                collide: vec![0, 7],
                log,
                v6: log,
            }))
        }, check),
    ]
}
