//! A socket decodes each datagram with its own connection's keys.
use super::c20::{alias, alias_bytes, ids, Alias};
use super::common::*;
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::packet::{decode_pn, Kind};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::routing::Socket;
use quic_sea::verif::utils::prelude::U160;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Dg {
    /// whose keys seal it, and whose id it names
    by: u16,
    to: u16,
    alias: Alias,
    packets: Vec<Pk>,
    log: bool,
    /// the named connection is dropped first, and put back afterwards
    gone: bool,
    /// this many datagrams have been routed to connections before
    routed: u8,
    /// this many datagrams that do not decode came before
    #[serde(default)]
    bad: u16,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    ids: Vec<u64>,
    conns: Vec<Conn>,
    log: bool,
    dgs: Vec<Dg>,
}
fn check(c: &Case, o: &mut Obs) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    let n = c.ids.len().min(c.conns.len());
    for i in 0..n {
        s.insert(c.ids[i], c.conns[i].build()?);
    }
    s.set_log(c.log);
    o.label_if(n >= 2, "two or more connections");
    for d in &c.dgs {
        crate::pause::step();
        let (by, to) = (d.by as usize % n, d.to as usize % n);
        let dcid = Bytes(alias_bytes(c.ids[to], &d.alias));
        if dcid.len() > 20 {
            continue;
        }
        let (mut ps, mut b) = (Vec::<Pk>::new(), Vec::<u8>::new());
        for p in &d.packets {
            let mut p = p.clone();
            if p.p.kind == Kind::OneRtt && dcid.len() != 8 {
                continue;
            }
            p.p.dcid = dcid.clone();
            let p = p.fix(&c.conns[by]);
            let last = p.p.kind == Kind::OneRtt;
            let x = p.seal(&c.conns[by]);
            if !ps.is_empty() && b.len() + x.len() > 65_507 {
                break;
            }
            b.extend(x);
            ps.push(p);
            if last {
                break;
            }
        }
        if ps.is_empty() {
            continue;
        }
        o.label_if(ps.len() > 16, "over 16 packets");
        o.label_if(b.len() > 1500, "over 1500 bytes");
        for _ in 0..d.routed {
            let _ = guard("route_datagram", || s.route(&b))?;
        }
        for i in 0..d.bad as usize {
            let mut t = b.clone();
            match i % 3 {
                // damaged, cut, for nobody
                0 => *t.last_mut().unwrap() ^= 1 + (i as u8 & 0x7f),
                1 => t.truncate(t.len() - 1 - i % t.len()),
                _ => {
                    t[1..].iter_mut().for_each(|x| *x ^= 0xa5);
                }
            }
            let _ = guard("packets_from_datagram", || s.packets(&t))?;
            o.label_if(i > 100, "after over 100 damaged datagrams");
        }
        let live = |x: &[u8]| c.ids[..n].iter().position(|i| x == i.to_be_bytes());
        let target = live(&dcid).filter(|t| !(d.gone && *t == to));
        if d.gone {
            guard("drop_connection", || s.remove(U160::from(c.ids[to])))?;
        }
        s.set_log(d.log);
        let r = guard("packets_from_datagram", || s.packets(&b))?;
        s.set_log(!d.log);
        let r2 = guard("packets_from_datagram", || s.packets(&b))?;
        o.evals(2);
        let r = r.map(|x| see_all(&x));
        let r2 = r2.map(|x| see_all(&x));
        match target {
            None => {
                o.label("no such connection");
                ensure(r.is_err() && r2.is_err(), || format!("decoded although {} names no live connection", hex(&dcid)))?;
            }
            Some(t) => {
                // exactly the target's keys and receive state
                let opens = ps.iter().all(|p| {
                    let sp = space_of(p.p.kind);
                    let tr = p.p.pn & ((1u64 << (8 * p.p.pn_len)) - 1);
                    c.conns[t].remote_keys(sp) == c.conns[by].remote_keys(sp) && decode_pn(c.conns[t].largest[sp], tr, p.p.pn_len as usize) == p.p.pn
                });
                o.nontrivial();
                if opens {
                    o.label("decoded");
                    let want: Vec<Seen> = ps.iter().map(|p| p.expect()).collect();
                    for r in [r, r2] {
                        let got = lib("decoding through the socket", r)??;
                        same_seen(&got, &want)?;
                    }
                } else {
                    o.label("sealed for another connection");
                    o.label_if(c.conns[t].remote_keys(space_of(ps[0].p.kind)) == c.conns[by].remote_keys(space_of(ps[0].p.kind)), "same keys, another receive state");
                    ensure(r.is_err() && r2.is_err(), || "a datagram sealed for another connection was decoded".into())?;
                }
            }
        }
        if d.gone {
            s.insert(c.ids[to], c.conns[to].build()?);
        }
    }
    Ok(())
}
/// datagrams of many packets, or of long ones
fn full_datagrams() -> BoxedStrategy<Case> {
    let many = prop_oneof![3 => Just(0usize), 3 => 4usize..100, 1 => 100usize..1_000, 1 => dict::lens(1_500)];
    (cases(), vec((many, vec(packet(kind_any(), payload_any), 1..4)), 8))
        .prop_map(|(mut c, how)| {
            c.dgs.truncate(3);
            for (d, (many, large)) in c.dgs.iter_mut().zip(how) {
                d.bad = 0;
                if many == 0 {
                    d.packets = large;
                    continue;
                }
                let (short, long): (Vec<Pk>, Vec<Pk>) = d.packets.drain(..).partition(|p| p.p.kind == Kind::OneRtt);
                d.packets = long.iter().cycle().take(if long.is_empty() { 0 } else { many }).cloned().chain(short).collect();
            }
            c
        })
        .boxed()
}
fn dg(n: u16) -> BoxedStrategy<Dg> {
    let mostly = prop_oneof![3 => Just(None), 2 => (0..n).prop_map(Some)];
    (0..n, mostly, prop_oneof![5 => Just(Alias::Exact), 1 => alias()], vec(packet(kind_any(), payload_small), 1..4), any::<bool>(), prop::bool::weighted(0.1), prop_oneof![4 => Just(0u8), 1 => 1u8..4], prop_oneof![30 => Just(0u16), 3 => 1u16..30, 1 => 30u16..300, 1 => dict::ints(300).prop_map(|n| n as u16)])
        .prop_map(|(to, by, alias, packets, log, gone, routed, bad)| Dg { by: by.unwrap_or(to), to, alias, packets, log, gone, routed, bad })
        .boxed()
}
/// connections with distinct keys; now and then one has its predecessor's keys but its own receive state
fn cases() -> BoxedStrategy<Case> {
    (ids(), vec((full_conn(), 0u8..6), 1..5), any::<bool>(), vec(dg(6), 1..8))
        .prop_map(|(ids, v, log, dgs)| {
            let mut conns: Vec<Conn> = vec![];
            for (c, how) in v {
                let c = match (how, conns.last()) {
                    (0, Some(l)) => Conn { largest: c.largest, ..l.clone() },
                    (1, Some(l)) => Conn { cid: l.cid.clone(), server: l.server, ..c },
                    _ => c,
                };
                conns.push(c);
            }
            Case { ids, conns, log, dgs }
        })
        .boxed()
}
fn crowd() -> BoxedStrategy<Case> {
    (cases(), prop_oneof![4 => 20usize..200, 1 => dict::lens(400).prop_map(|n| n.max(1))], any::<u64>(), prop::sample::select(vec![1u64, 0x1_0000_0001, 1 << 56, 0x9e37_79b9_7f4a_7c15]), vec(dg(u16::MAX), 5..40))
        .prop_map(|(c, n, a, step, dgs)| {
            let ids: Vec<u64> = (0..n as u64).map(|i| a.wrapping_add(step.wrapping_mul(i))).collect();
            let mut seen = std::collections::BTreeSet::new();
            let ids: Vec<u64> = ids.into_iter().filter(|i| seen.insert(*i)).collect();
            let conns = (0..ids.len())
                .map(|i| {
                    let mut c = c.conns[i % c.conns.len()].clone();
                    // keys of its own
                    c.cid = Bytes([&c.cid[..c.cid.len().min(8)], &ids[i].to_be_bytes()].concat());
                    for s in [&mut c.hs, &mut c.app].into_iter().flatten() {
                        for (k, x) in ids[i].to_be_bytes().iter().enumerate() {
                            s.0 .0[k] ^= x;
                            s.1 .0[k] ^= x;
                        }
                    }
                    c
                })
                .collect();
            Case { ids, conns, log: c.log, dgs }
        })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![law(
        "crowds",
        "sockets with 20 to 200 connections, 5 to 40 datagrams as in sockets; non-trivial: a datagram was decoded, or refused because of its keys",
        40,
        1_500,
        || bx(crowd()),
        check,
    ), law(
        "sockets",
        "sockets with 1..5 connections; datagrams of 1..3 packets sealed by any connection's peer and addressed to any, similar or dropped ids, in sequence, with logging on and off; non-trivial: a datagram was decoded, or refused because of its keys",
        6_000,
        150_000,
        || bx(cases()),
        check,
    ), law(
        "full",
        "the same, with up to three datagrams of up to 1,500 packets or of long packets, up to the size of a UDP payload; non-trivial: a datagram was decoded, or refused because of its keys",
        150,
        4_000,
        || bx(full_datagrams()),
        check,
    ), law(
        "pauses",
        "the same, with a second or more passing; non-trivial: a datagram was decoded, or refused because of its keys",
        1,
        8,
        || bx(crate::pause::paused(cases())),
        |c, o| crate::pause::with_pause(c, o, check),
    )]
}
