//! Words and numbers of the code under test, as workload material (never as an oracle): the literals
//! of the working tree are read at start, and those that the tree at hand does not share with the
//! one the monitors were written for are preferred. A behaviour that waits for one particular word,
//! length or number is met this way.
use crate::core::Rng;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    words: Vec<String>,
    fresh_words: Vec<String>,
    numbers: Vec<i128>,
    fresh_numbers: Vec<i128>,
}

const KNOWN: &str = include_str!("../known_literals.json");

fn sources(dir: &Path, out: &mut Vec<String>) {
    let mut entries: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    entries.sort();
    for p in entries {
        if p.is_dir() {
            if p.file_name().map_or(true, |n| n != "target" && n != "tests") {
                sources(&p, out);
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                out.push(t);
            }
        }
    }
}

/// String, character and number literals of Rust text, tests left out.
fn literals(src: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<i128>) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut product: Option<i128> = None;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            while i < b.len() && !(b[i] == '*' && b.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
        } else if c == '"' || (c == 'r' && matches!(b.get(i + 1), Some('"' | '#')) && (i == 0 || !b[i - 1].is_alphanumeric())) {
            let raw = c == 'r';
            let mut hashes = 0;
            if raw {
                i += 1;
                while b.get(i) == Some(&'#') {
                    hashes += 1;
                    i += 1;
                }
                if b.get(i) != Some(&'"') {
                    continue;
                }
            }
            i += 1;
            let mut s = String::new();
            while i < b.len() {
                if b[i] == '"' && (0..hashes).all(|k| b.get(i + 1 + k) == Some(&'#')) {
                    break;
                }
                if b[i] == '\\' && !raw {
                    i += 1;
                    match b.get(i) {
                        Some('n') => s.push('\n'),
                        Some('t') => s.push('\t'),
                        Some('r') => s.push('\r'),
                        Some('0') => s.push('\0'),
                        Some('x') => {
                            let h: String = b.iter().skip(i + 1).take(2).collect();
                            s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            i += 2;
                        }
                        Some('u') => {
                            let h: String = b.iter().skip(i + 2).take_while(|c| **c != '}').collect();
                            s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            i += 2 + h.len();
                        }
                        Some('\n') => {
                            while b.get(i + 1).map_or(false, |c| c.is_whitespace()) {
                                i += 1;
                            }
                        }
                        Some(o) => s.push(*o),
                        None => {}
                    }
                    i += 1;
                } else {
                    s.push(b[i]);
                    i += 1;
                }
            }
            i += 1 + hashes;
            for part in s.split(['{', '}']) {
                if !part.is_empty() && part.chars().count() <= 48 {
                    words.insert(part.to_owned());
                }
            }
        } else if c == '\'' && (b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\') {
            words.insert(b[i + 1].to_string());
            i += 3;
        } else if c.is_ascii_digit() {
            let mut t = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    t.push(b[i]);
                }
                i += 1;
            }
            let n = match t.strip_prefix("0x") {
                Some(h) => {
                    let h: String = h.chars().take_while(char::is_ascii_hexdigit).collect();
                    i128::from_str_radix(&h, 16)
                }
                None => t.chars().take_while(char::is_ascii_digit).collect::<String>().parse::<i128>(),
            };
            if let Ok(n) = n {
                numbers.insert(n);
                let so_far = product.map_or(n, |p| p.saturating_mul(n));
                numbers.insert(so_far);
                let rest: String = b.iter().skip(i).take(3).collect();
                product = if rest.starts_with(" * ") { Some(so_far) } else { None };
            }
            continue;
        } else if c.is_alphanumeric() || c == '_' {
            // a name, with the digits in it
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            product = None;
        } else {
            i += 1;
        }
    }
}

fn read() -> (BTreeSet<String>, BTreeSet<i128>) {
    let dir = std::env::var("VMON_SOURCE").unwrap_or_else(|_| "/repo/crates".into());
    let mut texts = vec![];
    sources(Path::new(&dir), &mut texts);
    let (mut w, mut n) = (BTreeSet::new(), BTreeSet::new());
    for t in &texts {
        literals(t, &mut w, &mut n);
    }
    (w, n)
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        if cfg!(miri) {
            return Dict::default();
        }
        let (w, n) = read();
        let v: serde_json::Value = serde_json::from_str(KNOWN).unwrap_or_default();
        let known_w: BTreeSet<&str> = v["words"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
        let known_n: BTreeSet<i128> = v["numbers"].as_array().into_iter().flatten().filter_map(|x| x.as_str()?.parse().ok()).collect();
        // in the order of a sorted set: runs are repeatable
        Dict {
            fresh_words: w.iter().filter(|x| !known_w.contains(x.as_str())).cloned().collect(),
            fresh_numbers: n.iter().filter(|x| !known_n.contains(x)).copied().collect(),
            // the text a case is made of must not depend on what is new
            words: known_w.iter().map(|x| (*x).to_owned()).collect(),
            numbers: known_n.iter().copied().collect(),
        }
    })
}

/// The literals, for known_literals.json.
pub fn print() {
    let (w, n) = read();
    println!("{:#}", serde_json::json!({"words": w, "numbers": n.iter().map(i128::to_string).collect::<Vec<_>>()}));
}

/// A word, now and then: about one time in `n`, and more often where the tree has words of its own.
pub fn word(r: &mut Rng, n: usize) -> Option<String> {
    let d = dict();
    if !d.fresh_words.is_empty() && r.one_in(n.div_ceil(4)) {
        return Some(r.pick(&d.fresh_words).clone());
    }
    if !d.words.is_empty() && r.one_in(n) {
        return Some(r.pick(&d.words).clone());
    }
    None
}

/// A word the monitors do not know.
pub fn fresh_word(r: &mut Rng, n: usize) -> Option<String> {
    let d = dict();
    (!d.fresh_words.is_empty() && r.one_in(n)).then(|| r.pick(&d.fresh_words).clone())
}

/// A number (or one beside it), now and then.
pub fn number(r: &mut Rng, n: usize) -> Option<i128> {
    let d = dict();
    let x = if !d.fresh_numbers.is_empty() && r.one_in(n.div_ceil(4)) {
        *r.pick(&d.fresh_numbers)
    } else if !d.numbers.is_empty() && r.one_in(n) {
        *r.pick(&d.numbers)
    } else {
        return None;
    };
    Some(x + *r.pick(&[0, 0, 1, -1]))
}

/// A number that can be a length.
pub fn length(r: &mut Rng, n: usize, most: usize) -> Option<usize> {
    number(r, n).and_then(|x| usize::try_from(x).ok()).filter(|x| *x <= most)
}
