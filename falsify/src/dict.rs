//! Constants that occur in the code under test, as hints for the search: lengths, counts, bytes and
//! byte strings an input may have to match. Constants the code did not have when this was written
//! are preferred. The search does not depend on them.
use crate::util::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    ints: Vec<u64>,
    new_ints: Vec<u64>,
    strs: Vec<Vec<u8>>,
    new_strs: Vec<Vec<u8>>,
}
impl Dict {
    pub fn novel(&self) -> bool {
        !self.new_ints.is_empty() || !self.new_strs.is_empty()
    }
}

static DICT: OnceLock<Dict> = OnceLock::new();
static BASE: &str = include_str!("../base_constants.txt");
/// Sizes of machine types, which casts and shifts imply without naming them.
const ALWAYS: [u64; 10] = [1 << 7, 1 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 23, 1 << 24, 1 << 31, 1 << 32, 1 << 63];

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let root = option_env!("VERIF_SOURCE").unwrap_or("/repo");
        let (ints, strs) = scan(root);
        let base: BTreeSet<&str> = BASE.lines().collect();
        let mut d = Dict::default();
        for i in ints.iter().copied() {
            if base.contains(i.to_string().as_str()) {
                d.ints.push(i)
            } else {
                d.new_ints.push(i)
            }
        }
        for s in strs {
            if base.contains(hex(&s).as_str()) {
                d.strs.push(s)
            } else {
                d.new_strs.push(s)
            }
        }
        d.ints.extend(ALWAYS);
        d
    })
}

fn hex(s: &[u8]) -> String {
    let mut r = String::from("x");
    for b in s {
        r.push_str(&format!("{b:02x}"));
    }
    r
}

/// All constants, in the form of the list of known ones.
pub fn list() {
    let (ints, strs) = scan("/repo");
    for i in ints {
        println!("{i}");
    }
    for s in strs {
        println!("{}", hex(&s));
    }
}

/// A constant, or a value near it or derived from it.
pub fn int(r: &mut Rng) -> u64 {
    let d = get();
    let v = if !d.new_ints.is_empty() && r.next() % 4 != 0 { &d.new_ints } else { &d.ints };
    let x = v[(r.next() % v.len() as u64) as usize];
    match r.next() % 16 {
        0..=4 => x,
        5 => x.wrapping_sub(1),
        6 => x.wrapping_add(1),
        7 => x.wrapping_add(16),
        8 => x.wrapping_sub(16),
        9 => x.wrapping_add(r.next() % 24),
        10 => x.wrapping_sub(r.next() % 24),
        11 => x.wrapping_mul(2),
        12 => x.wrapping_mul(1 + r.next() % 8),
        13 => x.wrapping_add(v[(r.next() % v.len() as u64) as usize]),
        14 => x / 2,
        _ => x.wrapping_mul(224).wrapping_add(r.next() % 3),
    }
}

/// Writes constants into random bytes.
pub fn mark(r: &mut Rng, b: &mut [u8]) {
    let d = get();
    let n = b.len();
    let v = if !d.new_strs.is_empty() && r.next() % 4 != 0 { &d.new_strs } else { &d.strs };
    match r.next() % 6 {
        0 => {
            let x = int(r) as u8;
            b.fill(x);
        }
        1 => b[0] = int(r) as u8,
        2 => b[n - 1] = int(r) as u8,
        3 => {
            let k = (r.next() % n as u64) as usize;
            b[k] = int(r) as u8;
        }
        4 if !v.is_empty() => {
            let s = &v[(r.next() % v.len() as u64) as usize];
            let l = s.len().min(n);
            b[..l].copy_from_slice(&s[..l]);
        }
        _ if !v.is_empty() => {
            let s = &v[(r.next() % v.len() as u64) as usize];
            let l = s.len().min(n);
            let k = (r.next() % (n - l + 1) as u64) as usize;
            b[k..k + l].copy_from_slice(&s[..l]);
        }
        _ => {}
    }
}

/// A byte string constant of at least `n` bytes, cut to them.
pub fn str_of(r: &mut Rng, n: usize) -> Option<Vec<u8>> {
    let d = get();
    let fit: Vec<&Vec<u8>> = d.new_strs.iter().chain(&d.strs).filter(|s| s.len() >= n).collect();
    if fit.is_empty() {
        return None;
    }
    Some(fit[(r.next() % fit.len() as u64) as usize][..n].to_vec())
}

fn scan(root: &str) -> (BTreeSet<u64>, BTreeSet<Vec<u8>>) {
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    for dir in ["protocol/src", "traffic/src"] {
        let Ok(entries) = std::fs::read_dir(format!("{root}/{dir}")) else { continue };
        for e in entries.flatten() {
            if let Ok(text) = std::fs::read_to_string(e.path()) {
                let text = text.split("\nmod tests").next().unwrap().to_string();
                constants(&text, &mut ints, &mut strs);
            }
        }
    }
    (ints, strs)
}

fn constants(text: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    // bytes of an array being read
    let mut run: Vec<u8> = vec![];
    let mut last: Option<u64> = None;
    let mut op = ' ';
    while i < c.len() {
        let x = c[i];
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '"' {
            let mut s = vec![];
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && c.get(i + 1) == Some(&'x') && i + 3 < c.len() {
                    let h: String = c[i + 2..i + 4].iter().collect();
                    s.push(u8::from_str_radix(&h, 16).unwrap_or(0));
                    i += 4;
                    continue;
                }
                if c[i] == '\\' {
                    i += 1;
                }
                if let Some(y) = c.get(i) {
                    s.extend(y.to_string().bytes());
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                strs.insert(s);
            }
            last = None;
        } else if x == '\'' && c.get(i + 2) == Some(&'\'') {
            ints.insert(c[i + 1] as u64);
            i += 3;
        } else if x.is_ascii_digit() {
            let from = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let word: String = c[from..i].iter().filter(|y| **y != '_').collect();
            if let Some(v) = number(&word) {
                ints.insert(v);
                if let Some(l) = last {
                    match op {
                        '<' => drop(ints.insert(l.checked_shl(v as u32).unwrap_or(0))),
                        '*' => drop(ints.insert(l.wrapping_mul(v))),
                        '+' => drop(ints.insert(l.wrapping_add(v))),
                        '-' => drop(ints.insert(l.wrapping_sub(v))),
                        _ => {}
                    }
                }
                last = Some(v);
                op = ' ';
                if v < 256 {
                    run.push(v as u8);
                } else {
                    run.clear();
                }
            }
        } else {
            match x {
                ',' | ' ' | '\n' => {}
                ']' => {
                    if run.len() >= 2 {
                        strs.insert(run.clone());
                    }
                    run.clear();
                }
                _ => run.clear(),
            }
            match x {
                '<' | '*' | '+' | '-' => op = x,
                ' ' => {}
                _ => last = None,
            }
            // the rest of an identifier, so that digits in it do not count
            if x.is_alphabetic() || x == '_' {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                continue;
            }
            i += 1;
        }
    }
}

fn number(w: &str) -> Option<u64> {
    let w = ["usize", "isize", "u128", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8"].iter().find_map(|t| w.strip_suffix(t)).unwrap_or(w);
    if let Some(h) = w.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = w.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else if let Some(o) = w.strip_prefix("0o") {
        u64::from_str_radix(o, 8).ok()
    } else {
        w.parse().ok()
    }
}
