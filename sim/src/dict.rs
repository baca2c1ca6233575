//! A dictionary of sizes and contents taken from the source of the library
//! under test, as fuzzers do: whatever constants the code compares against are
//! worth trying as lengths, batch sizes and contents. Constants the pinned
//! tree does not have are tried more often. Only the choice of inputs depends
//! on it, never a verdict. Replay files carry the dictionary they were made
//! with.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Default, Debug, PartialEq)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub strs: Vec<Vec<u8>>,
    /// made of what the pinned tree does not have
    pub novel: bool,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn set(d: Dict) {
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
        walk(Path::new("/repo/src"), &mut ints, &mut strs);
        let (mut bi, mut bs) = (BTreeSet::new(), BTreeSet::new());
        for l in include_str!("dict_base.txt").lines() {
            match l.split_once(' ') {
                Some(("i", n)) => {
                    bi.insert(n.parse::<usize>().unwrap_or(0));
                }
                Some(("s", h)) => {
                    bs.insert(hex::decode(h).unwrap_or_default());
                }
                _ => {}
            }
        }
        let ni: Vec<usize> = ints.difference(&bi).copied().take(64).collect();
        let ns: Vec<Vec<u8>> = strs.difference(&bs).cloned().take(64).collect();
        if ni.is_empty() && ns.is_empty() {
            Dict { ints: ints.into_iter().take(256).collect(), strs: strs.into_iter().take(256).collect(), novel: false }
        } else {
            Dict { ints: ni, strs: ns, novel: true }
        }
    })
}

/// What `dict_base.txt` holds for the tree as it is.
pub fn print() {
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    walk(Path::new("/repo/src"), &mut ints, &mut strs);
    for i in ints {
        println!("i {i}");
    }
    for s in strs {
        println!("s {}", hex::encode(s));
    }
}

fn walk(p: &Path, ints: &mut BTreeSet<usize>, strs: &mut BTreeSet<Vec<u8>>) {
    let Ok(d) = std::fs::read_dir(p) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() {
            if p.file_name().is_some_and(|n| n != "tests") {
                walk(&p, ints, strs);
            }
        } else if p.extension().is_some_and(|x| x == "rs") && p.file_stem().is_some_and(|n| n != "tests") {
            if let Ok(t) = std::fs::read(&p) {
                scan(&t, ints, strs);
            }
        }
    }
}

enum Tok {
    Int(usize),
    Op(u8),
}

fn scan(t: &[u8], ints: &mut BTreeSet<usize>, strs: &mut BTreeSet<Vec<u8>>) {
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut toks: Vec<Tok> = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        let rest = &t[i..];
        if rest.starts_with(b"//") {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if rest.starts_with(b"/*") {
            i += 2;
            while i < t.len() && !t[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let mut s = Vec::new();
            i += 1;
            while i < t.len() && t[i] != b'"' {
                if t[i] == b'\\' && i + 1 < t.len() {
                    i += 1;
                    match t[i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'r' => s.push(b'\r'),
                        b'0' => s.push(0),
                        b'x' => {
                            let h = t.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                            s.push(h.unwrap_or(0));
                            i += 2;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                strs.insert(s);
            }
            toks.push(Tok::Op(b'"'));
        } else if c == b'\'' {
            // a character or a lifetime
            let l = match (t.get(i + 1), t.get(i + 2), t.get(i + 3)) {
                (Some(b'\\'), _, Some(b'\'')) => 4,
                (Some(x), Some(b'\''), _) => {
                    ints.insert((*x).into());
                    3
                }
                _ => 1,
            };
            i += l;
        } else if c.is_ascii_digit() {
            let mut e = i;
            while e < t.len() && word(t[e]) {
                e += 1;
            }
            let s: String = t[i..e].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
            let (radix, body) = match s.get(..2) {
                Some("0x") => (16, &s[2..]),
                Some("0b") => (2, &s[2..]),
                Some("0o") => (8, &s[2..]),
                _ => (10, &s[..]),
            };
            let body: String = body.chars().take_while(|c| c.is_digit(radix)).collect();
            if let Ok(n) = usize::from_str_radix(&body, radix) {
                toks.push(Tok::Int(n));
            }
            i = e;
        } else if word(c) {
            while i < t.len() && word(t[i]) {
                i += 1;
            }
            toks.push(Tok::Op(b'w'));
        } else {
            if !c.is_ascii_whitespace() {
                toks.push(Tok::Op(c));
            }
            i += 1;
        }
    }
    let mut add = |n: usize| {
        if n <= 200_000 {
            ints.insert(n);
        }
    };
    for w in 0..toks.len() {
        if let Tok::Int(a) = toks[w] {
            add(a);
            match (toks.get(w + 1), toks.get(w + 2), toks.get(w + 3)) {
                (Some(Tok::Op(b'*')), Some(Tok::Int(b)), _) => add(a.saturating_mul(*b)),
                (Some(Tok::Op(b'-')), Some(Tok::Int(b)), _) => add(a.saturating_sub(*b)),
                (Some(Tok::Op(b'+')), Some(Tok::Int(b)), _) => add(a.saturating_add(*b)),
                (Some(Tok::Op(b'<')), Some(Tok::Op(b'<')), Some(Tok::Int(b))) if *b < 18 => add(a << b),
                _ => {}
            }
        }
    }
    // short lists of bytes, `[1, 2, 3]`
    let mut w = 0;
    while w < toks.len() {
        if let Tok::Op(b'[') = toks[w] {
            let mut v = Vec::new();
            let mut k = w + 1;
            while let Some(Tok::Int(n)) = toks.get(k) {
                if *n > 255 {
                    break;
                }
                v.push(*n as u8);
                k += 1;
                match toks.get(k) {
                    Some(Tok::Op(b',')) => k += 1,
                    _ => break,
                }
            }
            if (2..=64).contains(&v.len()) && matches!(toks.get(k), Some(Tok::Op(b']'))) {
                strs.insert(v);
            }
        }
        w += 1;
    }
}
