//! A socket holds the address it was given exactly while it is in use.
use super::c20::form;
use super::c20::{header, Form};
use super::c21::client_initial;
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::routing::Socket;
use quic_sea::verif::utils::prelude::U160;
use quic_sea::{QuicSocket, QuicStream};
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::Duration;

/// how many addresses a case plays with
const N: usize = 4;
/// indices that stand for addresses of no local interface
const ELSEWHERE: u8 = 200;
const ELSEWHERE6: u8 = 201;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    /// through the public type, or the one the harness can look into
    Bind { list: Vec<u8>, public: bool },
    /// a socket of someone else takes or leaves an address
    Occupy(u8),
    Leave(u8),
    /// the socket goes; its streams may stay
    DropSocket(u8),
    /// a stream handle for a new connection
    Stream { socket: u8, id: u64 },
    DropStream(u8),
    /// a client's first packet arrives at the socket
    Arrive { socket: u8, cid: Bytes },
}
thread_local! {
    static V6: bool = UdpSocket::bind("[::1]:0").is_ok();
}
/// loopback addresses no other case uses
fn fresh() -> Vec<SocketAddr> {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let k = NEXT.fetch_add(1, Ordering::Relaxed);
    let b = std::process::id().wrapping_mul(0x9e37_79b1).wrapping_add(k).to_be_bytes();
    let mut v: Vec<SocketAddr> = (0..N as u16).map(|i| SocketAddr::from((Ipv4Addr::new(127, 64 | b[1] & 63, b[2], b[3]), 20_011 + i))).collect();
    // the last one over IPv6, where it is there: a single address, so the port has to differ (below the ephemeral ones)
    if V6.with(|x| *x) {
        let port = 10_007 + (u32::from_be_bytes(b) % 19_000) as u16;
        v[N - 1] = SocketAddr::from((Ipv6Addr::LOCALHOST, port));
    }
    v
}
fn address(addrs: &[SocketAddr], i: u8) -> SocketAddr {
    if i == ELSEWHERE {
        // TEST-NET-1
        "192.0.2.77:20011".parse().unwrap()
    } else if i == ELSEWHERE6 {
        // the documentation prefix
        "[2001:db8::77]:20011".parse().unwrap()
    } else {
        addrs[i as usize % N]
    }
}
enum Handle {
    Public(#[allow(dead_code)] QuicSocket),
    Inner(Socket),
    Gone,
}
struct Bound {
    at: SocketAddr,
    h: Handle,
    streams: Vec<QuicStream>,
}
impl Bound {
    fn in_use(&self) -> bool {
        !matches!(self.h, Handle::Gone) || !self.streams.is_empty()
    }
}
fn available(a: SocketAddr) -> bool {
    UdpSocket::bind(a).is_ok()
}
fn once(ops: &[Op], o: &mut Obs) -> Check {
    let addrs = fresh();
    if !addrs.iter().all(|a| available(*a)) {
        o.label("addresses not available here");
        return Ok(());
    }
    let from4 = UdpSocket::bind("127.0.0.1:0").expect("bind");
    let from6 = UdpSocket::bind("[::1]:0").ok();
    let mut bound: Vec<Bound> = vec![];
    let mut others: Vec<(SocketAddr, UdpSocket)> = vec![];
    let mut handed = 0;
    for (n, op) in ops.iter().enumerate() {
        let held = |a: &SocketAddr, bound: &[Bound], others: &[(SocketAddr, UdpSocket)]| bound.iter().any(|b| b.at == *a && b.in_use()) || others.iter().any(|x| x.0 == *a);
        match op {
            Op::Bind { list, public } => {
                let list: Vec<SocketAddr> = list.iter().map(|i| address(&addrs, *i)).collect();
                let want = list.iter().find(|a| a.ip().is_loopback() && !held(a, &bound, &others)).copied();
                let r = guard("bind", || if *public { QuicSocket::bind(&list[..]).map(Handle::Public) } else { Socket::bind(&list[..]).map(Handle::Inner) })?;
                match (r, want) {
                    (Ok(h), Some(at)) => {
                        o.label("bound");
                        o.label_if(list[0] != at, "not at the first address");
                        if let Handle::Inner(s) = &h {
                            let a = s.local_addr().expect("address");
                            ensure(a == at, || format!("operation {n}: bound to {a}, {at} is the first free address of {list:?}"))?;
                        }
                        bound.push(Bound { at, h, streams: vec![] })
                    }
                    (Err(_), None) => o.label("refused"),
                    (Ok(_), None) => return Err(format!("operation {n}: bound although none of {list:?} can be")),
                    (Err(e), Some(at)) => return Err(format!("operation {n}: {at} of {list:?} is free, binding fails: {e}")),
                }
            }
            Op::Occupy(i) => {
                let a = addrs[*i as usize % N];
                if !held(&a, &bound, &others) {
                    others.push((a, UdpSocket::bind(a).map_err(|e| format!("operation {n}: {a} should be free, but {e}"))?));
                }
            }
            Op::Leave(i) => {
                let a = addrs[*i as usize % N];
                others.retain(|x| x.0 != a);
            }
            Op::DropSocket(i) if !bound.is_empty() => {
                let k = *i as usize % bound.len();
                let h = std::mem::replace(&mut bound[k].h, Handle::Gone);
                guard("dropping a socket", move || drop(h))?;
                o.label_if(!bound[k].streams.is_empty(), "socket dropped before its streams");
            }
            Op::Stream { socket, id } if !bound.is_empty() => {
                let k = *socket as usize % bound.len();
                let b = &mut bound[k];
                if let Handle::Inner(s) = &b.h {
                    if !s.ids().contains(&U160::from(*id)) {
                        s.insert(*id, Conn { server: true, cid: Bytes(id.to_be_bytes().to_vec()), scid: None, hs: None, app: None, largest: [None; 3], miss: [0; 2] }.build()?);
                        b.streams.push(QuicStream::verif_new(s, U160::from(*id)));
                    }
                }
            }
            Op::DropStream(i) => {
                if let Some(b) = bound.iter_mut().filter(|b| !b.streams.is_empty()).nth(*i as usize % 3) {
                    let st = b.streams.remove(*i as usize % b.streams.len());
                    guard("dropping a stream", move || drop(st))?;
                    handed += 1;
                }
            }
            Op::Arrive { socket, cid } if !bound.is_empty() => {
                let b = &bound[*socket as usize % bound.len()];
                if let Handle::Inner(s) = &b.h {
                    let d = client_initial(cid, &[1], 100, 1);
                    let live = s.ids().iter().any(|i| i.to_bytes()[12..] == cid[..]);
                    if !live {
                        s.set_read_timeout(Some(Duration::from_secs(3))).expect("timeout");
                        let from = if b.at.is_ipv6() { from6.as_ref().expect("IPv6") } else { &from4 };
                        o.label_if(b.at.is_ipv6(), "IPv6");
                        from.send_to(&d, b.at).expect("send");
                        let (g, a) = guard("waiting", || s.next_initial())?.map_err(|e| format!("operation {n}: nothing arrives at {}: {e}", b.at))?;
                        ensure(g == d && a == from.local_addr().unwrap(), || format!("operation {n}: another datagram arrives at {}", b.at))?;
                        o.label("received");
                    }
                }
            }
            _ => {}
        }
        // who holds what, seen from outside
        for a in &addrs {
            let h = held(a, &bound, &others);
            o.evals(1);
            ensure(available(*a) != h, || format!("after operation {n}, {op:?}: {a} {}", if h { "is free although a socket or a stream of it is still there" } else { "is taken although nothing uses it" }))?;
        }
    }
    o.nontrivial_if(bound.len() >= 2 || bound.iter().any(|b| !b.in_use()));
    o.label_if(handed > 0, "stream dropped");
    drop(bound);
    drop(others);
    for a in &addrs {
        ensure(available(*a), || format!("{a} is taken although everything was dropped"))?;
    }
    Ok(())
}
/// another process might use one of the addresses for a moment: believe a failure when it repeats
fn check(ops: &Vec<Op>, o: &mut Obs) -> Check {
    persist(o, |_, o| once(ops, o))
}
fn ops() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (vec(prop_oneof![8 => 0u8..N as u8, 1 => Just(ELSEWHERE), 1 => Just(ELSEWHERE6)], 1..5), any::<bool>()).prop_map(|(list, public)| Op::Bind { list, public }),
        1 => Just(Op::Bind { list: vec![ELSEWHERE], public: true }),
        2 => (0u8..N as u8).prop_map(Op::Occupy),
        2 => (0u8..N as u8).prop_map(Op::Leave),
        4 => any::<u8>().prop_map(Op::DropSocket),
        3 => (any::<u8>(), any::<u64>()).prop_map(|(socket, id)| Op::Stream { socket, id }),
        3 => any::<u8>().prop_map(Op::DropStream),
        2 => (any::<u8>(), any_cid()).prop_map(|(socket, cid)| Op::Arrive { socket, cid }),
    ]
    .boxed()
}

/// accepting through the public type
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Accept {
    /// sent before the Initial: header form, id, body
    noise: Vec<(Form, Bytes, Bytes)>,
    garbage: Vec<Bytes>,
    cid: Bytes,
    scid: Bytes,
    size: u16,
    pause: u8,
}
fn accept_once(c: &Accept, o: &mut Obs) -> Check {
    let at = fresh()[0];
    if !available(at) {
        o.label("addresses not available here");
        return Ok(());
    }
    let (tx, rx) = channel();
    let th = std::thread::spawn(move || {
        let s = match QuicSocket::bind(at) {
            Ok(s) => s,
            Err(e) => {
                let _ = tx.send(Err(format!("binding {at}: {e}")));
                return;
            }
        };
        let _ = tx.send(Ok(()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.accept::<()>()));
        let _ = tx.send(match r {
            Ok(Ok(st)) => {
                drop(st);
                Ok(())
            }
            Ok(Err(e)) => Err(format!("accept ended with {e}")),
            Err(_) => {
                // the handshake after registration is not written yet
                let (m, loc) = last_panic();
                if m.contains("not yet implemented") || m.contains("not implemented") {
                    Ok(())
                } else {
                    Err(format!("accept panicked: {m} at {loc}"))
                }
            }
        });
    });
    rx.recv().expect("thread")?;
    ensure(!available(at), || format!("{at} is free although a socket is bound there"))?;
    let from = UdpSocket::bind("127.0.0.1:0").expect("bind");
    for (f, id, body) in &c.noise {
        let b = [&header(f, id)[..], body].concat();
        // what is not an Initial
        if super::c15::parse(&b).map_or(true, |h| h.ty != "Initial") {
            from.send_to(&b, at).expect("send");
            o.evals(1);
        }
    }
    for g in &c.garbage {
        if super::c15::parse(g).map_or(true, |h| h.ty != "Initial") {
            from.send_to(g, at).expect("send");
            o.evals(1);
        }
    }
    match rx.recv_timeout(Duration::from_millis(c.pause as u64)) {
        Err(RecvTimeoutError::Timeout) => {}
        Ok(Ok(())) => return Err("accept ended before any Initial arrived".into()),
        Ok(Err(e)) => return Err(format!("before any Initial arrived, {e}")),
        Err(e) => return Err(format!("accept: {e}")),
    }
    ensure(!available(at), || format!("{at} is free while its socket waits"))?;
    from.send_to(&client_initial(&c.cid, &c.scid, c.size as usize, 1), at).expect("send");
    match rx.recv_timeout(Duration::from_secs(5)) {
        Ok(r) => r?,
        Err(e) => return Err(format!("accept does not end although an Initial arrived: {e}")),
    }
    let _ = th.join();
    ensure(available(at), || format!("{at} is taken although its socket is gone"))?;
    o.nontrivial();
    o.label_if(!c.noise.is_empty() || !c.garbage.is_empty(), "after noise");
    Ok(())
}
fn check_accept(c: &Accept, o: &mut Obs) -> Check {
    persist(o, |_, o| accept_once(c, o))
}
fn accepts() -> BoxedStrategy<Accept> {
    (vec((form(), any_cid(), content(0..60)), 0..6), vec(content(0..60), 0..4), any_cid(), any_cid(), prop_oneof![3 => Just(1200u16), 1 => 40u16..1500], 2u8..30)
        .prop_map(|(noise, garbage, cid, scid, size, pause)| Accept { noise, garbage, cid, scid, size, pause })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("binding", "1 to 20 operations on four loopback addresses (one of them IPv6): binding to lists of free, taken and foreign addresses, others taking and leaving addresses, sockets and stream handles dropped in any order, datagrams; every address probed from outside after each; non-trivial: two bound sockets, or one that is gone", 1_000, 30_000, || bx(vec(ops(), 1..20)), check),
        law("accepting", "the public accept in a thread: other traffic must not end it, the first Initial must, and the address is free afterwards; non-trivial: it ran to the end", 120, 3_000, || bx(accepts()), check_accept),
    ]
}
