//! A workload dictionary read from the sources of the code under test.
//!
//! Special constants (a name, a length, a code point) only matter to behaviour
//! when an input contains them. The literals of the current sources are
//! therefore offered to the generators as tokens and lengths; those that occur
//! more often than in the recorded baseline are offered eagerly. This directs
//! generation only: every verdict still comes from observed behaviour.

use crate::engine::Rng;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<usize>,
    /// Literals beyond the baseline.
    pub hot_strs: Vec<String>,
    pub hot_chars: Vec<char>,
    pub hot_nums: Vec<usize>,
}

const BASE: &str = include_str!("../dict_base.txt");

fn source_dir() -> Option<PathBuf> {
    let toml = include_str!("../Cargo.toml");
    let at = toml.find("path = \"")? + 8;
    let end = toml[at..].find('"')? + at;
    Some(Path::new(&toml[at..end]).join("src"))
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn escape(it: &mut std::iter::Peekable<std::str::Chars<'_>>) -> Option<char> {
    Some(match it.next()? {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        'x' => {
            let h: String = [it.next()?, it.next()?].iter().collect();
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        'u' => {
            it.next();
            let mut h = String::new();
            while let Some(c) = it.next() {
                if c == '}' { break; }
                if c != '_' { h.push(c); }
            }
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        c => c,
    })
}

/// Literals of one line of code, as `s:`, `c:` and `n:` keys.
fn literals(line: &str, add: &mut dyn FnMut(String)) {
    let mut it = line.chars().peekable();
    let mut prev = ' ';
    while let Some(c) = it.next() {
        match c {
            '/' if it.peek() == Some(&'/') => return,
            '"' => {
                let mut s = String::new();
                while let Some(c) = it.next() {
                    match c {
                        '"' => break,
                        '\\' => match escape(&mut it) {
                            Some(c) => s.push(c),
                            None => break,
                        },
                        c => s.push(c),
                    }
                }
                if !s.is_empty() && s.len() <= 48 {
                    add(format!("s:{}", s.escape_default()));
                }
            }
            '\'' => {
                // A character, or a lifetime.
                let mut look = it.clone();
                let c = match look.next() {
                    Some('\\') => escape(&mut look),
                    c => c,
                };
                if let (Some(c), Some('\'')) = (c, look.next()) {
                    add(format!("c:{}", c.escape_default()));
                    it = look;
                }
            }
            '0'..='9' if !(prev.is_alphanumeric() || prev == '_') => {
                let mut s = String::from(c);
                while let Some(&d) = it.peek() {
                    if d.is_ascii_alphanumeric() || d == '_' {
                        s.push(d);
                        it.next();
                    } else {
                        break;
                    }
                }
                let t = s.replace('_', "");
                let v = if let Some(h) = t.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                    u64::from_str_radix(&h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    let h: String = h.chars().take_while(|c| c.is_digit(2)).collect();
                    u64::from_str_radix(&h, 2).ok()
                } else {
                    t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
                };
                if let Some(v) = v {
                    add(format!("n:{v}"));
                }
                prev = '0';
                continue;
            }
            _ => {}
        }
        prev = c;
    }
}

/// The literals of the sources, with their number of occurrences.
pub fn collect() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut fs = Vec::new();
    if let Some(d) = source_dir() {
        files(&d, &mut fs);
    }
    for f in fs {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        for line in text.lines() {
            let l = line.trim_start();
            if l.starts_with("mod tests") { break; }
            if l.starts_with("//") || l.starts_with("#[") || l.starts_with("#![") { continue; }
            literals(l, &mut |k| *m.entry(k).or_insert(0) += 1);
        }
    }
    m
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(c) = escape(&mut it) { o.push(c); }
        } else {
            o.push(c);
        }
    }
    o
}

fn load() -> Dict {
    let mut d = Dict::default();
    if cfg!(miri) { return d; }
    let mut base: BTreeMap<&str, usize> = BTreeMap::new();
    for l in BASE.lines() {
        if let Some((n, k)) = l.split_once(' ') {
            base.insert(k, n.parse().unwrap_or(0));
        }
    }
    let mut char_of = |d: &mut Dict, c: char, hot: bool| {
        d.chars.push(c);
        if hot { d.hot_chars.push(c); }
    };
    for (k, n) in collect() {
        let hot = n > base.get(k.as_str()).copied().unwrap_or(0);
        match k.split_at(2) {
            ("s:", s) => {
                let s = unescape(s);
                if let (Some(c), 1) = (s.chars().next(), s.chars().count()) {
                    char_of(&mut d, c, hot);
                }
                if hot { d.hot_strs.push(s.clone()); }
                if s.chars().all(|c| !c.is_whitespace()) { d.strs.push(s); }
            }
            ("c:", s) => {
                if let Some(c) = unescape(s).chars().next() { char_of(&mut d, c, hot); }
            }
            (_, s) => {
                let Ok(v) = s.parse::<u64>() else { continue };
                if v <= 5_000 {
                    d.nums.push(v as usize);
                    if hot && v > 1 { d.hot_nums.push(v as usize); }
                }
                if v >= 0x20 {
                    if let Some(c) = u32::try_from(v).ok().and_then(char::from_u32) {
                        if hot || v >= 0x80 { char_of(&mut d, c, hot); }
                    }
                }
                if hot { d.hot_strs.push(v.to_string()); }
            }
        }
    }
    d
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load)
}

fn chosen<'a, T>(r: &mut Rng, hot: &'a [T], all: &'a [T], num: usize, den: usize, rare: usize) -> Option<&'a T> {
    if !hot.is_empty() && r.chance(num, den) {
        return Some(r.pick(hot));
    }
    if !all.is_empty() && rare > 0 && r.chance(1, rare) {
        return Some(r.pick(all));
    }
    None
}

/// Sometimes a string of the sources.
pub fn string(r: &mut Rng) -> Option<&'static str> {
    let d = dict();
    let s = chosen(r, &d.hot_strs, &d.strs, 1, 6, 400)?;
    Some(s)
}
/// Sometimes a character of the sources, or a neighbour of it.
pub fn character(r: &mut Rng) -> Option<char> {
    let d = dict();
    let c = *chosen(r, &d.hot_chars, &d.chars, 1, 8, 200)?;
    match r.below(6) {
        0 => char::from_u32(c as u32 + 1),
        1 => char::from_u32((c as u32).wrapping_sub(1)),
        _ => Some(c),
    }
}
/// Sometimes a length next to a number of the sources.
pub fn length(r: &mut Rng) -> Option<usize> {
    let d = dict();
    let n = *chosen(r, &d.hot_nums, &[], 1, 8, 0)?;
    if n > 300 && !r.chance(1, 8) {
        return None;
    }
    Some((n + r.below(3)).saturating_sub(1))
}
