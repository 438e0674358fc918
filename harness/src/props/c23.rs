//! The hex dump tool reproduces every file exactly.
use crate::dict;
use crate::engine::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    File(Bytes),
    /// n bytes made from a seed
    Large { n: u32, seed: u8 },
    Missing,
    Directory,
    /// a file whose output from an earlier, longer version is still there
    Stale(Bytes),
    /// a symbolic link to a file elsewhere
    Link(Bytes),
    /// a file whose output path is taken by a directory
    Blocked,
    /// a symbolic link to nothing, or to itself
    Dangling(bool),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Run {
    /// (file name index, what it is)
    files: Vec<(u8, Kind)>,
    relative: bool,
    #[serde(default)]
    twice: bool,
    /// further names
    #[serde(default)]
    words: Vec<String>,
}
const NAMES: [&str; 16] = [
    "a.bin", "b", "with space", "c.pretty.bin", "-dash", "\u{e9}t\u{e9}.bin", "x'y", "d.tar.gz", "e.pretty", "sub/f.bin", "sub.d/g", ".hidden", "star*", "h%s{0}.bin", "[ab].bin", "tab\there",
];

/// the name of an index, as bytes: not all are UTF-8, and one leaves no room for an ending
fn name_of(i: u8, words: &[String]) -> Vec<u8> {
    match i {
        0..=15 => NAMES[i as usize].as_bytes().to_vec(),
        16 => b"raw\xff\xfe.bin".to_vec(),
        17 => vec![b'l'; 252],
        18 => vec![b'm'; 248],
        19 => b"\xf0\x9f\x8c\x8a newline\n.bin".to_vec(),
        20..=39 if !words.is_empty() => {
            let w: String = words[(i - 20) as usize % words.len()].chars().filter(|c| *c != '/' && *c != '\0').take(40).collect();
            // distinct from every other name and every other name's output
            format!("{w}{}", if w.is_empty() || w.ends_with('.') || w.starts_with("sub") || w.ends_with("where") || w.contains("pretty") { "w" } else { "" }).into_bytes()
        }
        _ => format!("n{i}.bin").into_bytes(),
    }
}
fn path(n: &[u8]) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(n))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn data(k: &Kind) -> Option<Vec<u8>> {
    match k {
        Kind::File(b) | Kind::Stale(b) | Kind::Link(b) => Some(b.0.clone()),
        Kind::Large { n, seed } => Some((0..*n).map(|i| (i.wrapping_mul(2654435761).wrapping_add(*seed as u32) >> 13) as u8).collect()),
        _ => None,
    }
}
fn lines(b: &[u8]) -> Vec<String> {
    b.chunks(32).map(|l| if l.len() > 16 { format!("{} {}", hex(&l[..16]), hex(&l[16..])) } else { hex(l) }).collect()
}
fn verify(p: &Path, want: &[u8]) -> Check {
    let now = std::fs::read(p).map_err(|e| format!("{p:?} is gone: {e}"))?;
    ensure(now == want, || format!("{:?} was changed", p.file_name()))?;
    let mut out = p.as_os_str().to_owned();
    out.push(".pretty");
    let got = std::fs::read_to_string(&out).map_err(|e| format!("no output for {:?} of {} bytes: {e}", p.file_name(), want.len()))?;
    let digits: String = got.chars().filter(|c| !c.is_whitespace()).collect();
    ensure(digits == hex(want), || format!("{} bytes came out as {} hex digits that are not the file's", want.len(), digits.len()))?;
    let mut gl: Vec<&str> = got.lines().collect();
    if want.is_empty() {
        gl.retain(|l| !l.is_empty());
    }
    ensure(gl == lines(want), || format!("{} bytes are laid out wrongly; last lines {:?}", want.len(), &gl[gl.len().saturating_sub(2)..]))
}
fn check(c: &Run, o: &mut Obs) -> Check {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = base.join(format!("qsv23-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let dir = Scratch(dir);
    let mut files: Vec<(Vec<u8>, &Kind)> = vec![];
    for (i, k) in &c.files {
        let name = name_of(*i, &c.words);
        // no file is listed that is also the output of another
        let out = |n: &[u8]| [n, b".pretty"].concat();
        if files.iter().any(|f| f.0 == name || out(&f.0) == name || out(&name) == f.0) {
            continue;
        }
        let p = dir.0.join(path(&name));
        let pretty = dir.0.join(path(&[&name[..], b".pretty"].concat()));
        std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
        match k {
            Kind::Missing => {}
            Kind::Directory => std::fs::create_dir(&p).expect("mkdir"),
            Kind::Blocked => {
                std::fs::write(&p, b"blocked").expect("write");
                if name.len() < 249 {
                    std::fs::create_dir(pretty).expect("mkdir");
                }
            }
            Kind::Stale(b) => {
                std::fs::write(&p, &b.0).expect("write");
                if name.len() < 249 {
                    std::fs::write(pretty, "00112233445566778899aabbccddeeff 00\n".repeat(b.len() / 16 + 9)).expect("write");
                }
            }
            Kind::Link(b) => {
                let t = dir.0.join("elsewhere").join(i.to_string());
                std::fs::create_dir_all(t.parent().unwrap()).expect("mkdir");
                std::fs::write(&t, &b.0).expect("write");
                std::os::unix::fs::symlink(&t, &p).expect("symlink");
            }
            Kind::Dangling(own) => std::os::unix::fs::symlink(if *own { p.clone() } else { dir.0.join("nowhere") }, &p).expect("symlink"),
            k => std::fs::write(&p, data(k).unwrap()).expect("write"),
        }
        files.push((name, k));
    }
    if c.twice {
        // the first file again at the end
        if let Some(f) = files.first().cloned() {
            files.push(f);
        }
    }
    let args: Vec<PathBuf> = files.iter().map(|f| if c.relative && !f.0.starts_with(b"-") { path(&f.0) } else { dir.0.join(path(&f.0)) }).collect();
    let out = Command::new("python3")
        .arg(format!("{}/tools/prettify_bin.py", dict::REPO))
        .args(&args)
        .current_dir(&dir.0)
        .env("PYTHONIOENCODING", "utf-8")
        .env("PYTHONUTF8", "1")
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::null())
        .output()
        .expect("python3");
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if files.is_empty() {
        o.label("no files");
        let left: Vec<_> = std::fs::read_dir(&dir.0).expect("scratch").flatten().map(|e| e.file_name()).collect();
        return ensure(left.is_empty(), || format!("without arguments the tool wrote {left:?}"));
    }
    // a name of more than 248 bytes leaves no room for the output's
    let content = |f: &(Vec<u8>, &Kind)| data(f.1).filter(|_| f.0.len() < 249);
    let bad = files.iter().filter(|f| content(f).is_none()).count();
    o.label_if(bad > 0, "unreadable file");
    o.label_if(bad > 0 && bad < files.len(), "unreadable among readable");
    o.label_if(files.len() > 1, "several files");
    o.label_if(files.iter().any(|f| std::str::from_utf8(&f.0).is_err()), "name that is not UTF-8");
    o.label_if(files.len() > 50, "over 50 files");
    for (f, arg) in files.iter().zip(&args) {
        let (name, k) = f;
        match content(f) {
            Some(b) => {
                o.evals(1);
                o.label(match b.len() % 32 {
                    0 => "whole lines",
                    1..=15 => "partial first group",
                    16 => "one group",
                    _ => "partial second group",
                });
                o.label_if(b.is_empty(), "empty file");
                o.nontrivial_if(!b.is_empty());
                verify(&dir.0.join(path(name)), &b).map_err(|e| format!("{e}; tool said {:?}", text.chars().take(300).collect::<String>()))?;
            }
            None => {
                // a report names the file
                let shown = arg.to_string_lossy();
                // however it is quoted
                let plain = std::str::from_utf8(name).map_or(false, |n| !n.chars().any(|c| c.is_control() || "\\'\"".contains(c)));
                let shown = if plain { shown } else { dir.0.to_string_lossy() };
                ensure(text.contains(&*shown) || (!plain && c.relative && !text.is_empty()), || format!("{k:?} {shown} was not reported: {text:?}"))?;
                if matches!(k, Kind::Blocked) {
                    ensure(std::fs::read(dir.0.join(path(name))).ok().as_deref() == Some(b"blocked"), || "the input was changed".into())?;
                }
                if let Some(b) = data(k) {
                    ensure(std::fs::read(dir.0.join(path(name))).ok() == Some(b), || "the input was changed".into())?;
                }
            }
        }
    }
    Ok(())
}
fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        6 => content(0..100).prop_map(Kind::File),
        3 => (0usize..6, 0usize..3).prop_flat_map(|(k, d)| { let n = (16 * k + d).saturating_sub(1); content(n..=n) }).prop_map(Kind::File),
        1 => content(0..5000).prop_map(Kind::File),
        1 => prop::sample::select(vec![&b"\r\n"[..], b"\n", b"\x1a", b"\xff\xfe", b"\xef\xbb\xbfabc", b"a\r\nb\rc\n"]).prop_map(|b| Kind::File(Bytes(b.to_vec()))),
        1 => (4000u32..140_000, any::<u8>()).prop_map(|(n, seed)| Kind::Large { n, seed }),
        1 => (dict::lens(2_000_000), any::<u8>()).prop_map(|(n, seed)| Kind::Large { n: n as u32, seed }),
        1 => content(0..100).prop_map(Kind::Stale),
        1 => content(0..100).prop_map(Kind::Link),
        1 => Just(Kind::Missing),
        1 => Just(Kind::Directory),
        1 => Just(Kind::Blocked),
        1 => any::<bool>().prop_map(Kind::Dangling),
    ]
    .boxed()
}
fn runs() -> BoxedStrategy<Run> {
    (prop_oneof![60 => vec((0u8..24, kind()), 0..6), 10 => vec((0u8..24, kind()), 6..30), 1 => vec((0u8..=255, prop_oneof![20 => content(1..20).prop_map(Kind::File), 1 => kind()]), 60..240)], any::<bool>(), prop::bool::weighted(0.1), vec(dict::words(), 0..4))
        .prop_map(|(files, relative, twice, words)| Run { files, relative, twice, words })
        .boxed()
}

pub fn laws() -> Vec<Law> {
    vec![
        law("files", "lists of up to 240 files of any content and name (not only UTF-8, up to 252 bytes, words of the sources), sizes dense around multiples of 16, some named twice, behind symbolic links or over older output, mixed with missing files, directories, links to nothing and blocked outputs, by absolute and relative path; non-trivial: a non-empty file", 1_500, 25_000, || bx(runs()), check),
        sweep("sizes", "every size from 0 to 200 bytes, five at a time, enumerated; all non-trivial", |_| {
            Box::new((0u32..200).step_by(5).map(|n| Run { files: (0..5).map(|i| (i as u8, Kind::Large { n: n + i, seed: n as u8 })).collect(), relative: n % 2 == 0, twice: false, words: vec![] }))
        }, check),
        sweep("large", "files of 64 KiB and 1 MiB and their neighbours, and 10 MB, enumerated; all non-trivial", |_| {
            Box::new([65_535u32, 65_536, 65_537, 1 << 20, (1 << 20) + 17, 9_999_991].into_iter().map(|n| Run { files: vec![(0, Kind::Large { n, seed: 3 })], relative: false, twice: false, words: vec![] }))
        }, check),
    ]
}
