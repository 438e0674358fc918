mod alloc;
mod dict;
mod engine;
mod gen;
mod model;
mod pause;
mod props;
mod streams;

use engine::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false)
}
fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn usage() -> ! {
    eprintln!("usage: quic-sea-verif check <id> | replay <file> | list");
    exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            for p in props::all() {
                for l in &p.laws {
                    println!("{} {} -- {}", p.id, l.name, l.rule)
                }
            }
        }
        ["dictionary"] => dict::print_base(),
        #[cfg(feature = "c25")]
        ["draw-ids", n] => props::c25::draw(n.parse().unwrap_or(0)),
        #[cfg(feature = "c25")]
        ["draw-ids-forked", n] => props::c25::draw_forked(n.parse().unwrap_or(0)),
        ["check", id] => parent(id),
        ["child", id, out] => child(id, Path::new(out), None),
        ["child", id, out, journal] => child(id, Path::new(out), Some(PathBuf::from(journal))),
        ["replay", file] => {
            // runs the saved case against the current tree, without the generator
            let me = std::env::current_exe().unwrap();
            let out = scratch().join("replay.json");
            let st = run_child_for(Command::new(me).args(["replay-child", file, out.to_str().unwrap()]), ALONE);
            let txt = std::fs::read_to_string(&out).unwrap_or_default();
            let _ = std::fs::remove_dir_all(out.parent().unwrap());
            let Some(st) = st else {
                println!("replay fails: no answer within {} s", ALONE.as_secs());
                exit(1)
            };
            match st.code() {
                Some(0) => {
                    println!("replay passes");
                    exit(0)
                }
                Some(1) => {
                    println!("replay fails: {txt}");
                    exit(1)
                }
                Some(c) => {
                    println!("replay error {c}: {txt}");
                    exit(2)
                }
                None => {
                    println!("replay killed by signal {:?}", st.signal());
                    exit(1)
                }
            }
        }
        ["replay-child", file, out] => {
            install_panic_hook();
            match replay_file(Path::new(file)) {
                Ok(()) => exit(0),
                Err(f) => {
                    let _ = std::fs::write(out, &f.message);
                    exit(if f.harness { 2 } else { 1 })
                }
            }
        }
        _ => usage(),
    }
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("qsv-{}-{}", std::process::id(), {
        std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map(|d| d.subsec_nanos())
            .unwrap_or(0)
    }));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn replay_file(f: &Path) -> Result<(), Failure> {
    let bad = |m: String| Failure { case: Value::Null, message: m, harness: true };
    let txt = std::fs::read_to_string(f).map_err(|e| bad(e.to_string()))?;
    let v: Value = serde_json::from_str(&txt).map_err(|e| bad(e.to_string()))?;
    let id = v["property"].as_str().unwrap_or("");
    let law = v["law"].as_str().unwrap_or("");
    let p = props::all().into_iter().find(|p| p.id == id).ok_or(bad("no such property".into()))?;
    let Some(l) = p.laws.iter().find(|l| l.name == law) else {
        // a law that is left out of this build
        return if cfg!(feature = "sock") { Err(bad("no such law".into())) } else { Ok(()) };
    };
    (l.replay)(&v["case"])
}

/// Runs the laws in a child process (so that an abort of the code under test can be attributed),
/// writes evidence and prints the verdict.
fn parent(id: &str) {
    if !props::all().iter().any(|p| p.id == id) {
        eprintln!("unknown property {id}");
        exit(2)
    }
    let start = Instant::now();
    let dir = scratch();
    let out = dir.join("out.json");
    let me = std::env::current_exe().unwrap();
    let status = run_child(Command::new(&me).args(["child", id, out.to_str().unwrap()]));
    let (status, stall) = if status.code() == Some(STALLED) {
        match stalled(id, &me, &dir, &out, start) {
            Some(c) => (status, Some(c)),
            // a slow machine: give every case more time
            None => (run_child(Command::new(&me).args(["child", id, out.to_str().unwrap()]).env("VERIF_CASE_LIMIT_S", "200")), None),
        }
    } else {
        (status, None)
    };
    let code = if let Some(c) = stall {
        c
    } else if let Some(c) = status.code() {
        finish(id, &out, c, start)
    } else if matches!(status.signal(), Some(6) | Some(11) | Some(7) | Some(8) | Some(4)) {
        crashed(id, &me, &dir, status.signal().unwrap(), start)
    } else {
        eprintln!("check killed by signal {:?}", status.signal());
        2
    };
    let _ = std::fs::remove_dir_all(&dir);
    exit(code)
}

/// A case that runs this long is looked at on its own. The longest ones take a few seconds.
fn case_limit() -> Duration {
    Duration::from_secs(env_u64("VERIF_CASE_LIMIT_S", 40))
}
/// A case that runs this long on its own, twice, never ends.
const ALONE: Duration = Duration::from_secs(100);
const STALLED: i32 = 5;

/// As `run_child`, but ends the child (and what it started) after `limit`.
fn run_child_for(c: &mut Command, limit: Duration) -> Option<std::process::ExitStatus> {
    use std::os::unix::process::CommandExt;
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).process_group(0).spawn().unwrap();
    let start = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some(st);
        }
        if start.elapsed() > limit {
            let _ = Command::new("kill").args(["-9", "--", &format!("-{}", ch.id())]).stderr(Stdio::null()).status();
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// One case did not end: run it alone, twice; if it does not end either, that is the failure.
fn stalled(id: &str, me: &Path, dir: &Path, out: &Path, start: Instant) -> Option<i32> {
    let Some(j) = std::fs::read_to_string(out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
        eprintln!("no record of the stalled case");
        return Some(2);
    };
    let f = json!({"law": j["law"], "case": j["case"],
        "message": format!("no answer: the call did not return within {} s on this case", ALONE.as_secs())});
    eprintln!("law {}: a case has run for more than {} s; running it alone", f["law"], case_limit().as_secs());
    let p = dir.join("stalled.json");
    let _ = std::fs::write(&p, json!({"property": id, "law": f["law"], "case": f["case"]}).to_string());
    let o = dir.join("r.txt");
    for _ in 0..2 {
        let st = run_child_for(Command::new(me).args(["replay-child", p.to_str().unwrap(), o.to_str().unwrap()]), ALONE);
        if st.is_some() {
            eprintln!("alone the case ends ({st:?})");
            return None;
        }
    }
    let p = write_replay(id, &f);
    evidence(id, json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "stall isolation: the case that did not end was re-run alone twice", "samples": [j]}),
        start.elapsed().as_secs_f64(), 1);
    println!("  law {} fails: {}", f["law"].as_str().unwrap_or(""), f["message"].as_str().unwrap());
    println!("VIOLATION property={id} replay={}", p.display());
    Some(1)
}

fn run_child(c: &mut Command) -> std::process::ExitStatus {
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap()
}

fn evidence(id: &str, mut coverage: Value, wall: f64, violations: u64) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if coverage.as_object().map_or(true, |o| o.is_empty()) {
        coverage = json!({"evaluations": 0, "distinct_nontrivial": 0, "rule": "run ended early", "samples": []});
    }
    let e = json!({
        "property": id,
        "tier": if thorough() {"thorough"} else {"quick"},
        "seed": env_u64("VERIF_SEED", 1),
        "level": "exploration",
        "coverage": coverage,
        "assumptions": props::assumptions(id),
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&e).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        exit(2)
    }
}

fn finish(id: &str, out: &Path, code: i32, start: Instant) -> i32 {
    let v: Value = std::fs::read_to_string(out)
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(Value::Null);
    if v.is_null() || (code != 0 && code != 1) {
        eprintln!("check of {id} ended with code {code}: {}", v["error"].as_str().unwrap_or("no result"));
        return 2;
    }
    let wall = start.elapsed().as_secs_f64();
    let fails = v["failures"].as_array().cloned().unwrap_or_default();
    evidence(id, v["coverage"].clone(), wall, fails.len() as u64);
    println!(
        "{id}: {} evaluations, {} distinct non-trivial, {:.1} s",
        v["coverage"]["evaluations"], v["coverage"]["distinct_nontrivial"], wall
    );
    if code == 0 {
        return 0;
    }
    let mut first = None;
    for f in &fails {
        let p = write_replay(id, f);
        println!("  law {} fails: {}", f["law"].as_str().unwrap_or(""), clip(f["message"].as_str().unwrap_or("")));
        first.get_or_insert(p);
    }
    println!("VIOLATION property={id} replay={}", first.unwrap().display());
    1
}

fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn write_replay(id: &str, f: &Value) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{}.json", f["law"].as_str().unwrap_or("x")));
    let v = json!({"property": id, "law": f["law"], "message": f["message"],
        "seed": env_u64("VERIF_SEED", 1), "case": f["case"]});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
    p
}

/// The code under test took the process down: find the case and confirm it alone does so again.
fn crashed(id: &str, me: &Path, dir: &Path, sig: i32, start: Instant) -> i32 {
    eprintln!("process died with signal {sig}; re-running with a journal");
    let out = dir.join("out2.json");
    let jr = dir.join("journal.json");
    let st = run_child(Command::new(me).args(["child", id, out.to_str().unwrap(), jr.to_str().unwrap()]));
    if let Some(c) = st.code() {
        eprintln!("not reproduced with a journal (code {c})");
        return 2;
    }
    let Some(j) = std::fs::read_to_string(&jr).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
        eprintln!("no journal");
        return 2;
    };
    let f = json!({"law": j["law"], "case": j["case"],
        "message": format!("the process was killed by signal {sig} (abort, allocation failure or stack overflow) on this case")});
    let p = write_replay(id, &f);
    let o = dir.join("r.txt");
    for _ in 0..2 {
        let st = run_child(Command::new(me).args(["replay-child", p.to_str().unwrap(), o.to_str().unwrap()]));
        if st.code().is_some() {
            eprintln!("the journalled case alone does not crash");
            return 2;
        }
    }
    evidence(id, json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash isolation: the journalled case was re-run alone twice", "samples": [j]}),
        start.elapsed().as_secs_f64(), 1);
    println!("  law {} fails: {}", f["law"].as_str().unwrap_or(""), f["message"].as_str().unwrap());
    println!("VIOLATION property={id} replay={}", p.display());
    1
}

fn child(id: &str, out: &Path, journal: Option<PathBuf>) {
    install_panic_hook();
    // a run that never ends is an error of the check, not a verdict
    let limit = env_u64("VERIF_WATCHDOG_S", if thorough() { 6 * 3600 } else { 780 });
    let out2 = out.to_path_buf();
    std::thread::spawn(move || {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(limit) {
            std::thread::sleep(Duration::from_millis(500));
            // what was found is reported when making it smaller takes too long
            let late = !thorough() && start.elapsed() > Duration::from_secs(480);
            match stuck(case_limit()).or_else(|| if late { found() } else { None }) {
                Some(Stuck::Case(law, case)) => {
                    let _ = std::fs::write(&out2, json!({"law": law, "case": case}).to_string());
                    exit(STALLED)
                }
                Some(Stuck::Failed(v)) => {
                    let fs: Vec<Value> = v.into_iter().map(|(law, f)| json!({"law": law, "case": f.case, "message": f.message})).collect();
                    let _ = std::fs::write(&out2, json!({"coverage": {}, "failures": fs, "error": null}).to_string());
                    exit(1)
                }
                None => {}
            }
        }
        let _ = std::fs::write(&out2, json!({"error": "watchdog"}).to_string());
        exit(3)
    });
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let cfg = RunCfg { seed: env_u64("VERIF_SEED", 1), thorough: thorough(), journal, scale: props::scale(id, thorough()) };
    let mut failures: Vec<Value> = vec![];
    let mut harness_error: Option<String> = None;

    // saved regressions first: plain replays, no generator
    let mut regress = 0u64;
    if let Ok(rd) = std::fs::read_dir(root().join("regress")) {
        let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            if !name.starts_with(&format!("{id}-")) {
                continue;
            }
            let v: Value = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
            if let Some(j) = &cfg.journal {
                let _ = std::fs::write(j, json!({"law": v["law"], "case": v["case"]}).to_string());
            }
            regress += 1;
            if let Err(e) = replay_file(&f) {
                if e.harness {
                    harness_error = Some(format!("{name}: {}", e.message))
                } else {
                    failures.push(json!({"law": v["law"], "case": v["case"], "message": format!("saved case {name}: {}", e.message)}));
                }
            }
        }
    }

    let reps = run_laws(&p.laws, &cfg);
    let (mut evals, mut distinct) = (regress, 0u64);
    let mut samples = vec![];
    let mut per_law = vec![];
    let mut rules = vec![];
    for (l, r) in p.laws.iter().zip(&reps) {
        evals += r.evaluations;
        distinct += r.nontrivial.len() as u64;
        samples.extend(r.samples.iter().cloned());
        rules.push(format!("[{}] {}", l.name, l.rule));
        per_law.push(json!({"law": l.name, "cases": r.cases, "evaluations": r.evaluations,
            "distinct_nontrivial": r.nontrivial.len(), "slowest_case_ms": r.slowest.as_millis() as u64, "classes": r.labels}));
        if let Some(f) = &r.failure {
            if f.harness {
                harness_error = Some(format!("law {}: {} (case {})", l.name, f.message, clip(&f.case.to_string())));
            } else {
                failures.push(json!({"law": l.name, "case": f.case, "message": f.message}));
            }
        }
    }
    let coverage = json!({
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": rules.join(" "), "samples": samples, "laws": per_law, "saved_regressions_replayed": regress,
    });
    let code = if !failures.is_empty() { 1 } else if harness_error.is_some() { 4 } else { 0 };
    let v = json!({"coverage": coverage, "failures": failures, "error": harness_error});
    std::fs::write(out, v.to_string()).unwrap();
    exit(code)
}
