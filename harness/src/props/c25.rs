//! Ids the library issues are fresh and unpredictable.
use super::c21::client_initial;
use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use quic_sea::verif::quictls::utils::get_connection_id;
use quic_sea::verif::routing::Socket;
use serde::{Deserialize, Serialize};
use std::net::UdpSocket;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::Duration;

/// counts beyond this many standard deviations do not happen: 1e-18 each
const SIGMAS: f64 = 9.0;

fn off(what: impl FnOnce() -> String, n: usize, got: usize, p: f64) -> Check {
    let (mean, sd) = (n as f64 * p, (n as f64 * p * (1.0 - p)).sqrt());
    // a small constant for the small means, where the tail is heavier than the normal one
    ensure((got as f64 - mean).abs() <= SIGMAS * sd + 12.0, || format!("{}: {got} of {n}, {mean:.0} expected", what()))
}
fn bits(what: &str, v: impl Iterator<Item = u64> + Clone, n: usize) -> Check {
    for b in 0..64 {
        off(|| format!("{what}: bit {b} is set"), n, v.clone().filter(|x| x >> b & 1 == 1).count(), 0.5)?;
    }
    Ok(())
}
/// ids in the order they were drawn
fn random(what: &str, ids: &[u64], o: &mut Obs) -> Check {
    o.evals(ids.len() as u64);
    let n = ids.len();
    let mut s = ids.to_vec();
    s.sort_unstable();
    if let Some(w) = s.windows(2).find(|w| w[0] == w[1]) {
        // 2^18 ids repeat once in 10^9 runs, 2^12 in 10^12
        return Err(format!("{what}: {:#x} was issued twice among {n} ids", w[0]));
    }
    if n < 200 {
        return Ok(());
    }
    bits(what, ids.iter().copied(), n)?;
    // bits against the next id's, and against the neighbouring bit's
    bits(&format!("{what}: change from one id to the next"), ids.windows(2).map(|w| w[0] ^ w[1]), n - 1)?;
    bits(&format!("{what}: difference from one id to the next"), ids.windows(2).map(|w| w[1].wrapping_sub(w[0])), n - 1)?;
    for r in [1u32, 7, 8, 16, 24, 32] {
        bits(&format!("{what}: against itself rotated by {r}"), ids.iter().map(move |x| x ^ x.rotate_left(r)), n)?;
    }
    bits(&format!("{what}: against its bytes reversed"), ids.iter().map(|x| x ^ x.swap_bytes()), n)?;
    off(|| format!("{what}: larger than the one before"), n - 1, ids.windows(2).filter(|w| w[1] > w[0]).count(), 0.5)?;
    if n >= 50_000 {
        for k in 0..8 {
            let mut c = [0usize; 256];
            ids.iter().for_each(|x| c[(x >> (8 * k)) as usize & 255] += 1);
            for (v, got) in c.iter().enumerate() {
                off(|| format!("{what}: byte {k} is {v:#x}"), n, *got, 1.0 / 256.0)?;
            }
        }
        // any 32 bits of the id repeat no more often than chance has it
        for k in [0u32, 8, 16, 24, 32, 48] {
            let mut s: Vec<u32> = ids.iter().map(|x| x.rotate_right(k) as u32).collect();
            s.sort_unstable();
            let rep = s.windows(2).filter(|w| w[0] == w[1]).count() as f64;
            let want = (n as f64) * (n as f64) / 2.0 / 4294967296.0;
            ensure(rep <= want + 10.0 * want.sqrt() + 30.0, || format!("{what}: 32 bits from bit {k} repeat {rep} times among {n}, {want:.0} expected"))?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Draw {
    threads: u8,
    each: u32,
}
fn check_threads(c: &Draw, o: &mut Obs) -> Check {
    o.nontrivial_if(c.threads > 1 || c.each > 200);
    o.label_if(c.threads > 1, "several threads");
    let all: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads).map(|_| s.spawn(|| (0..c.each).map(|_| guard("get_connection_id", get_connection_id)).collect::<Result<Vec<u64>, String>>())).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect::<Result<Vec<_>, String>>()
    })?;
    for (i, ids) in all.iter().enumerate() {
        random(&format!("thread {i}"), ids, o)?;
    }
    // across threads, side by side
    let n = c.each as usize;
    let mixed: Vec<u64> = (0..n).flat_map(|i| all.iter().map(move |v| v[i])).collect();
    random("threads together", &mixed, o)
}

/// prints ids, for `check_processes`
pub fn draw(n: u32) {
    for _ in 0..n {
        println!("{}", get_connection_id());
    }
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// as `draw`, in a process and a copy of it forked after some draws
pub fn draw_forked(n: u32) {
    use std::io::Write;
    for _ in 0..n % 7 {
        get_connection_id();
    }
    let batch = || {
        let t: String = (0..n).map(|_| format!("{}\n", get_connection_id())).collect();
        let mut out = std::io::stdout();
        let _ = out.write_all(t.as_bytes());
        let _ = out.flush();
    };
    // nothing else runs in this process, and the copy only draws, writes and ends
    unsafe {
        match fork() {
            0 => {
                batch();
                _exit(0)
            }
            -1 => std::process::exit(3),
            pid => {
                let mut st = 0;
                waitpid(pid, &mut st, 0);
                batch();
            }
        }
    }
}
fn check_forked(c: &Draw, o: &mut Obs) -> Check {
    o.nontrivial();
    let me = std::env::current_exe().expect("own path");
    let out = Command::new(&me).args(["draw-ids-forked", &c.each.to_string()]).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("spawn");
    assert!(out.status.code() != Some(3), "fork");
    let v: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.trim().parse().ok()).collect();
    ensure(v.len() == 2 * c.each as usize, || format!("a process and its copy issued {} of {} ids", v.len(), 2 * c.each))?;
    let (a, b) = v.split_at(c.each as usize);
    let mixed: Vec<u64> = a.iter().zip(b).flat_map(|(x, y)| [*x, *y]).collect();
    random("a process and its forked copy together", &mixed, o)
}
fn check_processes(c: &Draw, o: &mut Obs) -> Check {
    o.nontrivial_if(c.threads > 1);
    let me = std::env::current_exe().expect("own path");
    let hs: Vec<_> = (0..c.threads)
        .map(|_| Command::new(&me).args(["draw-ids", &c.each.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn"))
        .collect();
    let mut all = vec![];
    for h in hs {
        let out = h.wait_with_output().expect("wait");
        let v: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.trim().parse().ok()).collect();
        ensure(v.len() == c.each as usize, || format!("a process issued {} of {} ids", v.len(), c.each))?;
        all.push(v);
    }
    // the n-th ids of the processes, side by side
    let n = c.each as usize;
    let mixed: Vec<u64> = (0..n).flat_map(|i| all.iter().map(move |v| v[i])).collect();
    random("processes together", &mixed, o)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Accepts {
    /// what the clients choose; every client in turn
    cids: Vec<(Bytes, Bytes)>,
    n: u16,
    log: bool,
}
fn accepts_once(c: &Accepts, o: &mut Obs) -> Check {
    let s = Socket::bind("127.0.0.1:0").expect("bind");
    s.set_read_timeout(Some(Duration::from_secs(3))).expect("timeout");
    s.set_log(c.log);
    let to = s.local_addr().expect("addr");
    let from = UdpSocket::bind("127.0.0.1:0").expect("bind");
    let mut ids: Vec<u64> = vec![];
    let mut known = std::collections::BTreeSet::new();
    for i in 0..c.n as usize {
        let (cid, scid) = &c.cids[i % c.cids.len()];
        let d = client_initial(cid, scid, 100, 0);
        assert_eq!(from.send_to(&d, to).expect("send"), d.len());
        let s2 = s.clone();
        let r = catch_unwind(AssertUnwindSafe(move || s2.accept()));
        if let Ok(Err(e)) = r {
            return Err(format!("accept ended with {e}"));
        }
        let now = guard("ids", || s.ids())?;
        for id in now {
            let b = id.to_bytes();
            ensure(b[..12].iter().all(|x| *x == 0), || "an issued id exceeds 8 bytes".into())?;
            let x = u64::from_be_bytes(b[12..].try_into().unwrap());
            if known.insert(x) {
                ids.push(x);
            }
        }
        // the client's ids and the one issued to it have nothing in common
        let Some(x) = ids.get(i) else { return Err(format!("accept {i} registered no new id")) };
        for theirs in [cid, scid] {
            if theirs.len() >= 5 && theirs.iter().any(|b| *b != 0) {
                let x = x.to_be_bytes();
                for w in theirs.windows(5) {
                    // five given bytes at one of four places: 1e-12 by chance
                    ensure(!x.windows(5).any(|v| v == w), || format!("the id issued to a client that sent {theirs:?} is {}", hex(&x)))?;
                }
            }
        }
    }
    ensure(ids.len() == c.n as usize, || format!("{} accepts registered {} ids", c.n, ids.len()))?;
    random("accepted connections", &ids, o)
}
fn check_accepts(c: &Accepts, o: &mut Obs) -> Check {
    o.nontrivial();
    o.label_if(c.cids.len() == 1, "one client over and over");
    // a datagram the kernel lost would look like a defect: believe a failure only when it repeats
    let mut res = Ok(());
    for _ in 0..2 {
        res = accepts_once(c, o);
        if res.is_ok() {
            break;
        }
    }
    res
}
fn accepts() -> BoxedStrategy<Accepts> {
    (prop_oneof![1 => proptest::collection::vec((any_cid(), any_cid()), 1..2), 1 => proptest::collection::vec((any_cid(), any_cid()), 2..20)], prop_oneof![2 => 200u16..400, 1 => 20u16..200], any::<bool>())
        .prop_map(|(cids, n, log)| Accepts { cids, n, log })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("threads", "1 to 8 threads drawing 1 to 4000 ids each; non-trivial: several threads, or over 200 ids", 60, 2_000, || bx((1u8..9, prop_oneof![1 => 1u32..50, 2 => 200u32..4000]).prop_map(|(threads, each)| Draw { threads, each })), check_threads),
        sweep("distribution", "2^18 ids of one thread and of four (thorough: eight times); all non-trivial", |t| Box::new((0..if t { 16u32 } else { 2 }).map(|i| Draw { threads: if i % 2 == 0 { 1 } else { 4 }, each: if i % 2 == 0 { 1 << 18 } else { 1 << 16 } })), check_threads),
        law("processes", "2 to 40 processes drawing 1 to 100 ids each; all non-trivial", 4, 100, || bx((2u8..40, 1u32..100).prop_map(|(threads, each)| Draw { threads, each })), check_processes),
        law("forked", "a process that draws up to 6 ids, then it and its forked copy drawing 1 to 600 each; all non-trivial", 6, 200, || bx((1u32..600).prop_map(|each| Draw { threads: 2, each })), check_forked),
        law("accepts", "20 to 400 accepts on one socket for one client over and over, or for several; all non-trivial", 10, 300, || bx(accepts()), check_accepts),
    ]
}
