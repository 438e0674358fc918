//! A dictionary of the integers and words in the sources under test, as fuzzers keep one: the generators
//! draw values, lengths and counts from it and its neighbours. It only steers generation; no oracle reads it.
//! Integers that are not in `dict-base.txt` (the tree the harness was written for) are drawn more often.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};

pub const REPO: &str = "/repo";

pub struct Dict {
    pub all: Vec<u64>,
    pub fresh: Vec<u64>,
    pub words: Vec<String>,
    pub fresh_words: Vec<String>,
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
        if p.is_dir() {
            if name != "tests" {
                sources(&p, out)
            }
        } else if (name.ends_with(".rs") && name != "verif.rs") || name.ends_with(".py") {
            out.push(p)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(u64),
    Op(char),
    Word(String),
    Str(String),
}
fn tokens(src: &str, python: bool) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if (python && x == '#') || (!python && x == '/' && at(i + 1) == '/') {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if !python && x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2
        } else if x == '"' || (python && x == '\'') {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != x {
                if c[i] == '\\' {
                    i += 1
                }
                s.push(at(i));
                i += 1
            }
            i += 1;
            out.push(Tok::Str(s))
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                i += 3;
                while i < c.len() && c[i] != '\'' {
                    i += 1
                }
                i += 1
            } else if at(i + 2) == '\'' {
                if at(i + 1).is_ascii() {
                    out.push(Tok::Num(at(i + 1) as u64))
                }
                i += 3
            } else {
                i += 1
            }
        } else if x.is_ascii_digit() {
            let mut s = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    s.push(c[i])
                }
                i += 1
            }
            for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
                if !s.starts_with("0x") || suf.starts_with('u') || suf.starts_with('i') {
                    if let Some(t) = s.strip_suffix(suf) {
                        s = t.to_string();
                        break;
                    }
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(b) = s.strip_prefix("0b") {
                u64::from_str_radix(b, 2)
            } else if let Some(o) = s.strip_prefix("0o") {
                u64::from_str_radix(o, 8)
            } else {
                s.parse()
            };
            out.push(v.map(Tok::Num).unwrap_or(Tok::Word(s)))
        } else if x.is_alphabetic() || x == '_' {
            let mut s = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                s.push(c[i]);
                i += 1
            }
            out.push(Tok::Word(s))
        } else {
            if !x.is_whitespace() {
                out.push(Tok::Op(x))
            }
            i += 1
        }
    }
    out
}
/// leaves out `#[cfg(test)]` items
fn without_tests(t: Vec<Tok>) -> Vec<Tok> {
    let head: Vec<Tok> = vec![Tok::Op('#'), Tok::Op('['), Tok::Word("cfg".into()), Tok::Op('('), Tok::Word("test".into()), Tok::Op(')'), Tok::Op(']')];
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(&head) {
            i += head.len();
            let mut depth = 0;
            while i < t.len() {
                match t[i] {
                    Tok::Op('{') => depth += 1,
                    Tok::Op('}') => {
                        depth -= 1;
                        if depth == 0 {
                            i += 1;
                            break;
                        }
                    }
                    Tok::Op(';') if depth == 0 => {
                        i += 1;
                        break;
                    }
                    _ => {}
                }
                i += 1
            }
        } else {
            out.push(t[i].clone());
            i += 1
        }
    }
    out
}
fn collect(t: &[Tok], ints: &mut BTreeSet<u64>, words: &mut BTreeSet<String>) {
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Num(v) => {
                ints.insert(*v);
                // constant expressions a << b, a * b, a + b, a - b, from here on
                let mut acc = *v;
                let mut j = i + 1;
                loop {
                    let (op, n) = match (t.get(j), t.get(j + 1), t.get(j + 2)) {
                        (Some(Tok::Op('<')), Some(Tok::Op('<')), Some(Tok::Num(n))) => ('<', (*n, 3)),
                        (Some(Tok::Op(o)), Some(Tok::Num(n)), _) if "*+-".contains(*o) => (*o, (*n, 2)),
                        _ => break,
                    };
                    let r = match op {
                        '<' => acc.checked_shl(n.0 as u32),
                        '*' => acc.checked_mul(n.0),
                        '+' => acc.checked_add(n.0),
                        _ => acc.checked_sub(n.0),
                    };
                    let Some(r) = r else { break };
                    acc = r;
                    ints.insert(acc);
                    j += n.1;
                }
            }
            Tok::Str(s) if !s.is_empty() && s.len() < 80 => {
                // hex!("...") and the like hold no text
                words.insert(s.clone());
            }
            _ => {}
        }
    }
}
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        sources(&Path::new(REPO).join("src"), &mut files);
        sources(&Path::new(REPO).join("tools"), &mut files);
        let (mut ints, mut words) = (BTreeSet::new(), BTreeSet::new());
        for f in files {
            if let Ok(b) = std::fs::read(&f) {
                let t = tokens(&String::from_utf8_lossy(&b), f.extension().map_or(false, |e| e == "py"));
                collect(&without_tests(t), &mut ints, &mut words);
            }
        }
        let base: BTreeSet<&str> = include_str!("../dict-base.txt").lines().collect();
        let known = |v: &u64| base.contains(v.to_string().as_str());
        let fresh = ints.iter().copied().filter(|v| !known(v)).collect();
        let fresh_words = words.iter().filter(|w| !base.contains(format!("\"{}", w.escape_default()).as_str())).cloned().collect();
        Dict { all: ints.into_iter().collect(), fresh, words: words.into_iter().collect(), fresh_words }
    })
}
/// the dictionary as `dict-base.txt` keeps it
pub fn print_base() {
    let d = get();
    d.all.iter().for_each(|v| println!("{v}"));
    d.words.iter().for_each(|w| println!("\"{}", w.escape_default()));
}

/// how often, out of about a hundred, generators draw from the dictionary
pub fn weight() -> u32 {
    if get().fresh.is_empty() {
        4
    } else {
        16
    }
}
fn pool(max: u64) -> &'static [u64] {
    static POOLS: Mutex<BTreeMap<u64, &'static [u64]>> = Mutex::new(BTreeMap::new());
    let mut pools = POOLS.lock().unwrap_or_else(|e| e.into_inner());
    *pools.entry(max).or_insert_with(|| Box::leak(make_pool(max).into_boxed_slice()))
}
fn make_pool(max: u64) -> Vec<u64> {
    let d = get();
    let keep = |v: &Vec<u64>| v.iter().copied().filter(|v| *v <= max).collect::<Vec<_>>();
    let fresh = keep(&d.fresh);
    let mut p = keep(&d.all);
    // half of the draws are fresh integers, when there are any
    if !fresh.is_empty() {
        let n = p.len() / fresh.len() + 1;
        for _ in 0..n {
            p.extend(&fresh);
        }
    }
    if p.is_empty() {
        p.push(0)
    }
    p
}
/// an integer of the dictionary, or a neighbour, up to max
pub fn ints(max: u64) -> BoxedStrategy<u64> {
    (prop::sample::select(pool(max)), prop_oneof![2 => Just(0i64), 1 => Just(1i64), 1 => Just(-1i64)])
        .prop_map(move |(v, d)| v.saturating_add_signed(d).min(max))
        .boxed()
}
/// a length or count of the dictionary, or a neighbour, up to max
pub fn lens(max: usize) -> BoxedStrategy<usize> {
    ints(max as u64).prop_map(|v| v as usize).boxed()
}
/// a string of the dictionary, or a part of one
pub fn words() -> BoxedStrategy<String> {
    static POOL: OnceLock<Vec<String>> = OnceLock::new();
    let p = POOL.get_or_init(|| {
        let d = get();
        let mut p = d.words.clone();
        if !d.fresh_words.is_empty() {
            let n = p.len() / d.fresh_words.len() + 1;
            for _ in 0..n {
                p.extend(d.fresh_words.iter().cloned());
            }
        }
        if p.is_empty() {
            p.push(String::new())
        }
        p
    });
    (prop::sample::select(&p[..]), prop_oneof![3 => Just(0usize), 1 => 0usize..80], prop_oneof![3 => Just(80usize), 1 => 0usize..80])
        .prop_map(|(w, skip, take)| w.chars().skip(skip).take(take).collect())
        .boxed()
}
