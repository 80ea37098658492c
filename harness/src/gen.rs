//! Workload generators. Everything is JSON, so that every case can be printed and replayed.
use crate::core::Rng;
use crate::dict;
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};
use chrono::{DateTime, SecondsFormat, TimeZone, Utc};
use serde_json::{json, Map, Value};

pub fn b64(b: impl AsRef<[u8]>) -> String {
    URL_SAFE_NO_PAD.encode(b)
}

pub fn base58(bytes: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut digits: Vec<u8> = vec![];
    for b in bytes {
        let mut carry = u32::from(*b);
        for d in &mut digits {
            carry += u32::from(*d) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = bytes.iter().take_while(|b| **b == 0).count();
    std::iter::repeat(b'1')
        .take(zeros)
        .chain(digits.iter().rev().map(|d| A[*d as usize]))
        .map(char::from)
        .collect()
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

// ---------------------------------------------------------------- strings

pub fn token(r: &mut Rng, len: usize) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    (0..len).map(|_| A[r.below(A.len())] as char).collect()
}

/// A word of the code under test, by itself or among other characters.
fn known_word(r: &mut Rng, n: usize) -> Option<String> {
    let w = dict::word(r, n)?;
    Some(match r.below(8) {
        0 => format!("{w}{}", token(r, 6)),
        1 => format!("{}{w}", token(r, 6)),
        2 => format!("{}{w}{}", token(r, 3), token(r, 3)),
        3 => format!("{} {w} {}", token(r, 3), token(r, 3)),
        4 => w.to_uppercase(),
        _ => w,
    })
}

/// Any string an application might hand over: words, URLs, unicode, separators, control characters.
pub fn text(r: &mut Rng) -> String {
    const PIECES: &[&str] = &[
        "a", "Z", "0", "abc", "name", " ", "  ", "\t", "\n", "\r\n", "\"", "\\", "/", ".", "..", ",", ":", ";", "&", "=",
        "?", "#", "%", "%25", "%00", "+", "-", "_", "~", "*", "'", "<", ">", "{", "}", "[", "]", "(", ")", "|", "^", "`",
        "$", "@", "!", "\0", "\u{1}", "\u{1f}", "\u{7f}", "é", "e\u{301}", "ß", "İ", "漢字", "🎓", "👩‍🎓", "\u{202e}",
        "\u{feff}", "\u{2028}", "ا", "null", "true", "1e5", "credential_offer", "https://", "did:",
    ];
    if let Some(w) = known_word(r, 60) {
        return w;
    }
    if let Some(n) = dict::length(r, 120, 12_000) {
        return if r.flip() { token(r, n) } else { "é".repeat(n / 2) + &"x".repeat(n % 2) };
    }
    match r.below(12) {
        0 => String::new(),
        1 => {
            let n = 1 + r.below(12);
            token(r, n)
        }
        2 => url(r),
        3 if r.one_in(3) => {
            // no fixed byte offset is a character boundary in all of these
            let c = *r.pick(&['é', 'ß', 'İ', '漢', '\u{feff}', '🎓', '\u{10ffff}']);
            let most = if r.one_in(20) { 4000 } else { 250 };
            let n = 10 + r.below(most);
            let k = r.below(4);
            format!("{}{}", token(r, k), c.to_string().repeat(n))
        }
        3 => {
            let n = if r.one_in(16) { 500 + r.below(9000) } else { 60 + r.below(400) };
            token(r, n)
        }
        4..=6 => {
            let n = 1 + r.below(8);
            (0..n).map(|_| *r.pick(PIECES)).collect()
        }
        7 => format!("{}-{}", token(r, 6), r.pick(PIECES)),
        8 => char::from_u32(r.below(0x3000) as u32).map_or_else(|| "x".into(), |c| format!("{c}{}", token(r, 2))),
        9 => {
            let n = r.below(4);
            let a = token(r, 3);
            format!("{a}.{}", token(r, n))
        }
        _ => {
            let n = 1 + r.below(4);
            (0..n).map(|_| token(r, 4)).collect::<Vec<_>>().join(" ")
        }
    }
}

pub fn url(r: &mut Rng) -> String {
    let host = *r.pick(&["issuer.example.com", "example.com", "localhost:8443", "xn--bcher-kva.example", "10.0.0.1"]);
    let mut s = format!("{}{host}", r.pick(&["https://", "https://", "https://", "http://"]));
    for _ in 0..r.below(4) {
        s.push('/');
        let n = r.below(8);
        s.push_str(&token(r, n));
    }
    if r.one_in(8) {
        s.push_str(&token(r, 200));
    }
    if let Some(w) = dict::word(r, 60) {
        if w.chars().all(|c| c.is_ascii_graphic() && c != '?' && c != '#') {
            s = match r.below(4) {
                0 => s.replacen("://", &format!("://{w}"), 1),
                1 => format!("{s}/{w}"),
                2 => format!("{s}/{w}/{}", token(r, 3)),
                _ => format!("{s}{w}"),
            };
        }
    }
    s
}

/// An identifier-like value that deserves byte-for-byte treatment.
const PUNCTUATION: &[char] = &[
    ' ', '-', '_', '+', '/', '.', ':', ';', ',', '=', '&', '?', '#', '%', '|', '~', '!', '*', '@', '$', '^', '(', ')', '[', ']', '{', '}', '<', '>', '"', '\'',
    '`', '\\', '\t', '\n', '\r', '\0', '\u{7f}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{2029}', '\u{feff}',
];

pub fn ident(r: &mut Rng) -> String {
    if let Some(w) = known_word(r, 60) {
        return w;
    }
    if let Some(n) = dict::length(r, 120, 12_000) {
        return token(r, n);
    }
    if r.one_in(60) {
        let n = *r.pick(&[1000, 1024, 1025, 2048, 4097, 10_000]) + r.below(200);
        return token(r, n);
    }
    if r.one_in(40) {
        let p = *r.pick(&["Bearer ", "bearer ", "urn:", "0x", "#", "did:", "mailto:", "//", "+", "@", "~", "./", "\u{feff}", "-", "_", "0", "00"]);
        let n = 4 + r.below(20);
        return format!("{p}{}", token(r, n));
    }
    if r.one_in(20) {
        return format!("{}%{:02X}{}{}", token(r, 3), 0x20 + r.below(0x5f), token(r, 3), r.pick(&["", "=", "==", "%C3%A9", "+a/b"]));
    }
    if r.one_in(16) {
        // numerals
        let n = 1 + r.below(18);
        let d: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
        return match r.below(8) {
            0 => format!("0{d}"),
            1 => format!("{d}.0"),
            2 => format!("{d}e0"),
            3 => format!("-{d}"),
            _ => d,
        };
    }
    if r.one_in(12) {
        // words with something between them
        let sep = *r.pick(PUNCTUATION);
        let n = 2 + r.below(4);
        return (0..n).map(|_| token(r, 4)).collect::<Vec<_>>().join(&sep.to_string());
    }
    match r.below(6) {
        0 => url(r),
        1 => text(r),
        2 => {
            let n = 64 + r.below(200);
            token(r, n)
        }
        3 => format!("{}-{}-{}", token(r, 8), token(r, 4), token(r, 12)),
        _ => {
            let n = 8 + r.below(24);
            token(r, n)
        }
    }
}

fn percent_decoded(s: &str) -> String {
    let b = s.as_bytes();
    let (mut out, mut i) = (Vec::new(), 0);
    while i < b.len() {
        let h = (b[i] == b'%').then(|| s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
        match h {
            Some(c) => {
                out.push(c);
                i += 3;
            }
            None => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// A different string that a sloppy comparison would take for `s`.
pub fn near(r: &mut Rng, s: &str) -> (String, &'static str) {
    if let Some(w) = dict::word(r, 24) {
        let found = s.contains(&w);
        let t = match r.below(if found { 8 } else { 5 }) {
            0 => format!("{s}{w}"),
            1 => format!("{w}{s}"),
            2 => match dict::word(r, 1) {
                Some(v) => format!("{w}{s}{v}"),
                None => w,
            },
            3 => {
                let at: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
                let i = if at.is_empty() { 0 } else { *r.pick(&at) };
                format!("{}{w}{}", &s[..i], &s[i..])
            }
            4 => w,
            5 => s.replacen(&w, "", 1),
            6 => s.replace(&w, ""),
            _ => match dict::word(r, 1) {
                Some(v) => s.replace(&w, &v),
                None => String::new(),
            },
        };
        if t != s {
            return (t, "a word of the code");
        }
    }
    for _ in 0..40 {
        let chars: Vec<char> = s.chars().collect();
        let n = chars.len();
        let (t, kind): (String, &'static str) = match r.below(73) {
            0 => (format!("{s} "), "append-space"),
            1 => (format!(" {s}"), "prepend-space"),
            2 => (format!("{s}\0"), "append-nul"),
            3 => (format!("{s}/"), "append-slash"),
            4 => (s.trim_end_matches('/').to_owned(), "strip-slash"),
            5 => (s.to_uppercase(), "upper"),
            6 => (s.to_lowercase(), "lower"),
            7 if n > 0 => {
                let i = r.below(n);
                let mut c = chars.clone();
                c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
                (c.into_iter().collect(), "flip-case")
            }
            8 if n > 0 => (chars[..n - 1].iter().collect(), "drop-last"),
            9 if n > 0 => (chars[1..].iter().collect(), "drop-first"),
            10 => (String::new(), "empty"),
            11 if n > 1 => {
                let i = r.below(n - 1);
                let mut c = chars.clone();
                c.swap(i, i + 1);
                (c.into_iter().collect(), "swap")
            }
            12 if n > 0 => {
                let mut c = chars.clone();
                c[n - 1] = if c[n - 1] == 'x' { 'y' } else { 'x' };
                (c.into_iter().collect(), "change-last")
            }
            13 if n > 0 => {
                let i = r.below(n);
                let mut c = chars.clone();
                c[i] = if c[i] == 'q' { 'p' } else { 'q' };
                (c.into_iter().collect(), "change-one")
            }
            14 if n > 0 => {
                let mut c = chars.clone();
                c[0] = if c[0] == 'k' { 'j' } else { 'k' };
                (c.into_iter().collect(), "change-first")
            }
            15 => (format!("{s}{}", token(r, 1)), "append-char"),
            16 => (format!("{s}{s}"), "double"),
            17 => (format!("{s}\n"), "append-newline"),
            18 => (s.replace('a', "\u{430}").replace('e', "\u{435}").replace('o', "\u{43e}"), "homoglyph"),
            19 => (s.replacen("https", "http", 1), "scheme"),
            20 => (format!("{s}?"), "append-query"),
            21 => (format!("{s}#"), "append-fragment"),
            22 if n > 0 => {
                let i = r.below(n);
                (chars[..i].iter().collect::<String>() + &format!("%{:02X}", chars[i] as u32 & 0xff) + &chars[i + 1..].iter().collect::<String>(), "percent")
            }
            23 if n > 8 => (chars[..n / 2].iter().chain(&['x'; 8]).collect(), "same-prefix"),
            24 if n > 8 => (['x'; 8].iter().chain(&chars[n / 2..]).collect(), "same-suffix"),
            25 => (chars.iter().rev().collect(), "reverse"),
            26 => (s.replace('-', "_"), "dash"),
            27 => (s.replace('-', "").replace('_', ""), "no-dash"),
            28 => (format!("{s}\u{200b}"), "zero-width"),
            29 if n > 2 => {
                let k = 1 + r.below(n - 1);
                (chars[..k].iter().collect(), "prefix")
            }
            30 if n > 2 => {
                let mut c = chars.clone();
                r.shuffle(&mut c);
                (c.into_iter().collect(), "anagram")
            }
            31 | 32 if n > 2 => {
                // differences that cancel out, or add up to nothing, in a careless comparison
                let mask = 1u32 << r.below(7);
                let k = *r.pick(&[2usize, 2, 4, 8, 256 / mask as usize]);
                let mut at: Vec<usize> = (0..n).filter(|i| chars[*i].is_ascii()).collect();
                r.shuffle(&mut at);
                if at.len() < k {
                    continue;
                }
                let mut c = chars.clone();
                for i in &at[..k] {
                    c[*i] = char::from_u32(c[*i] as u32 ^ mask).unwrap_or('?');
                }
                (c.into_iter().collect(), "same difference at several places")
            }
            33 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                let mut c = chars.clone();
                if i == j || !c[i].is_ascii_alphanumeric() || !c[j].is_ascii_alphanumeric() {
                    continue;
                }
                c[i] = (c[i] as u8 + 1) as char;
                c[j] = (c[j] as u8 - 1) as char;
                (c.into_iter().collect(), "same sum")
            }
            34 => match s.split_once("://") {
                Some((a, b)) => {
                    let (host, rest) = b.split_at(b.find('/').unwrap_or(b.len()));
                    let host = match r.below(7) {
                        0 => format!("{host}:443"),
                        1 => format!("{host}:80"),
                        2 => host.split(':').next().unwrap_or("").to_owned(),
                        3 => host.to_uppercase(),
                        4 => format!("{host}."),
                        5 => format!("www.{host}"),
                        _ => format!("u@{host}"),
                    };
                    (format!("{a}://{host}{rest}"), "host")
                }
                None => (format!("https://{s}"), "scheme"),
            },
            35 => (percent_decoded(s), "percent-decoded"),
            36 => (s.replace("%2F", "%2f").replace("%C3", "%c3").replace('~', "%7E"), "percent-case"),
            37 => (
                if r.flip() { s.replace('é', "e\u{301}").replace('Å', "A\u{30a}") } else { s.replace("e\u{301}", "é").replace("A\u{30a}", "Å") },
                "normalization",
            ),
            38 => (
                if r.flip() { s.replace('-', "+").replace('_', "/") } else { s.replace('+', "-").replace('/', "_") },
                "base64 alphabet",
            ),
            39 => (if r.flip() { format!("{s}=") } else { s.trim_end_matches('=').to_owned() }, "padding"),
            40 => (if r.flip() { format!("0{s}") } else { s.trim_start_matches('0').to_owned() }, "leading zero"),
            41 => (if r.flip() { format!("\"{s}\"") } else { format!("'{s}'") }, "quoted"),
            42 => {
                let o = token(r, 5);
                let sep = *r.pick(&[" ", ",", ", ", ";", "|", "\n"]);
                (if r.flip() { format!("{s}{sep}{o}") } else { format!("{o}{sep}{s}") }, "one of a list")
            }
            43 => (format!("[\"{s}\"]"), "in an array"),
            44 => (format!("{s}/{}", token(r, 4)), "path below"),
            45 => (format!("{s}?{}=1", token(r, 2)), "with query"),
            46 => (format!("{s}#{}", token(r, 2)), "with fragment"),
            47 => (if r.flip() { format!("\t{s}") } else { format!("{s}\t") }, "tab"),
            48 => (s.split_whitespace().collect::<Vec<_>>().join(" "), "collapsed space"),
            49 => (s.chars().filter(|c| !c.is_whitespace()).collect(), "without space"),
            50 => (format!("\u{feff}{s}"), "byte order mark"),
            51 => (s.split_once("://").map_or_else(|| format!("urn:{s}"), |(_, b)| b.to_owned()), "without scheme"),
            52..=54 if n > 16 => {
                // alike up to a place where a bounded comparison may have stopped looking
                let k = *r.pick(&[8usize, 16, 24, 32, 36, 64, 100, 128, 255, 256, 512, 1000, 1024, 4096]);
                if k >= n {
                    continue;
                }
                let mut c = chars.clone();
                let i = if r.flip() { k } else { k + r.below(n - k) };
                c[i] = if c[i] == 'm' { 'n' } else { 'm' };
                (c.into_iter().collect(), "alike at first")
            }
            55 if n > 16 => {
                let k = *r.pick(&[8usize, 16, 32, 64, 128, 255, 256, 1024]);
                (chars.iter().take(k).collect(), "cut")
            }
            56 => (s.chars().filter(char::is_ascii).collect(), "ASCII only"),
            57 => (s.chars().filter(char::is_ascii_alphanumeric).collect(), "alphanumeric only"),
            58 => (s.chars().filter(|c| !c.is_control()).collect(), "without control characters"),
            59 => (s.split(['#', '?', ';', '\0', ' ', '/', ':', '.']).next().unwrap_or("").to_owned(), "first part"),
            60 => (s.chars().flat_map(char::to_lowercase).map(|c| if c == 'ß' { 's' } else { c }).collect(), "folded"),
            61 => (s.chars().map(|c| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }).collect(), "full width"),
            62..=65 => {
                // one punctuation character for another, everywhere
                let found: Vec<char> = chars.iter().copied().filter(|c| PUNCTUATION.contains(c)).collect();
                if found.is_empty() {
                    continue;
                }
                let c = *r.pick(&found);
                let o = match r.below(4) {
                    0 => String::new(),
                    _ => r.pick(if c == '+' || c == '-' { &PUNCTUATION[..5] } else { PUNCTUATION }).to_string(),
                };
                (s.replace(c, &o), "other punctuation")
            }
            66 => {
                let i = r.below(n + 1);
                (chars[..i].iter().chain([r.pick(PUNCTUATION)]).chain(&chars[i..]).collect(), "punctuation inserted")
            }
            67 if n > 0 => {
                let i = r.below(n);
                (chars[..i].iter().chain(&chars[i + 1..]).collect(), "character dropped")
            }
            68 | 69 if n > 0 && s.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'.' | b'-' | b'+' | b'e')) => {
                // the same number
                let t = match r.below(7) {
                    0 => format!("0{s}"),
                    1 => format!("+{s}"),
                    2 => format!("{s}.0"),
                    3 => format!("{s}.00"),
                    4 => format!("{s}e0"),
                    5 => s.trim_start_matches('0').to_owned(),
                    _ => s.split(['.', 'e']).next().unwrap_or("").to_owned(),
                };
                (t, "same number")
            }
            70 | 71 if n > 2 => {
                // equal under a hash that is a polynomial in a small base, or two running sums
                let b: i32 = *r.pick(&[31, 31, 33, 37, 17, 13, 7, 2, 3, 5, 10, 16]);
                let steps: [i32; 3] = if r.one_in(4) { [1, -2, 1] } else { [1, -b, 0] };
                let sign = if r.flip() { 1 } else { -1 };
                let fits: Vec<usize> = (0..n - 2)
                    .filter(|i| {
                        (0..3).all(|j| {
                            let c = chars[i + j] as i32;
                            steps[j] == 0 || (c < 128 && (33..127).contains(&(c + sign * steps[j])))
                        })
                    })
                    .collect();
                if fits.is_empty() {
                    continue;
                }
                let i = *r.pick(&fits);
                let mut c = chars.clone();
                for j in 0..3 {
                    if steps[j] != 0 {
                        c[i + j] = (c[i + j] as i32 + sign * steps[j]) as u8 as char;
                    }
                }
                (c.into_iter().collect(), "equal under a weak hash")
            }
            _ => (token(r, n.max(1)), "unrelated"),
        };
        if t != s {
            return (t, kind);
        }
    }
    (format!("{s}!"), "append-char")
}

// ---------------------------------------------------------------- time

pub const S: i128 = 1_000_000_000;

/// A signed distance from a deadline, dense around zero.
pub fn slack(r: &mut Rng) -> i128 {
    if let Some(n) = dict::number(r, 60).filter(|n| (1..1_000_000_000_000_000_000).contains(n)) {
        let unit = *r.pick(&[1, 1_000, 1_000_000, S, S, S, 60 * S, 3600 * S, 86_400 * S]);
        let v = n * unit;
        if v < 20_000 * 86_400 * S {
            return if r.flip() { v } else { -v };
        }
    }
    const STEPS: &[i128] = &[
        1, 2, 999, 1_000, 500_000, 1_000_000, 1_500_000, 400_000_000, 500_000_000, 999_999_999, S, S + 1, 2 * S, 5 * S, 10 * S,
        30 * S, 59 * S, 60 * S, 61 * S, 120 * S, 299 * S, 300 * S, 301 * S, 600 * S, 3599 * S, 3600 * S, 3601 * S, 7200 * S,
        86_399 * S, 86_400 * S, 30 * 86_400 * S, 366 * 86_400 * S, 3652 * 86_400 * S, 20_000 * 86_400 * S,
    ];
    if r.one_in(8) {
        return 0;
    }
    let mut v = *r.pick(STEPS);
    if r.one_in(4) {
        v += r.range(0, 999_999_999) as i128;
    }
    if r.flip() {
        v
    } else {
        -v
    }
}

pub fn now(r: &mut Rng) -> i128 {
    let base = match r.below(6) {
        0 => 1_700_000_000,
        1 => r.range(0, 4_000_000_000),
        2 => *r.pick(&[951_782_399, 1_709_164_799, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 1, 1_767_225_599]),
        _ => r.range(1_600_000_000, 2_000_000_000),
    };
    let ns = match r.below(4) {
        0 => 0,
        1 => *r.pick(&[1, 999_999_999, 500_000_000, 1_000_000, 999_000_000]),
        _ => r.range(0, 999_999_999),
    };
    base as i128 * S + ns as i128
}

pub fn dt(t: i128) -> Option<DateTime<Utc>> {
    let s = i64::try_from(t.div_euclid(S)).ok()?;
    Utc.timestamp_opt(s, t.rem_euclid(S) as u32).single()
}

pub fn nanos(d: &DateTime<Utc>) -> i128 {
    d.timestamp() as i128 * S + d.timestamp_subsec_nanos() as i128
}

/// RFC 3339, sometimes with another offset than Z. Falls back to Z out of the four-digit years.
pub fn rfc3339(r: &mut Rng, t: i128) -> String {
    let d = dt(t).expect("representable");
    let y = chrono::Datelike::year(&d);
    if (1..=9998).contains(&y) && r.one_in(4) {
        let off = *r.pick(&[3600, -3600, 7200, 19_800, -28_800, 50_400, -43_200]);
        let o = chrono::FixedOffset::east_opt(off).unwrap();
        d.with_timezone(&o).to_rfc3339_opts(SecondsFormat::AutoSi, false)
    } else {
        d.to_rfc3339_opts(SecondsFormat::AutoSi, true)
    }
}

/// A claim instant close to `t`: an RFC 3339 string, or a NumericDate (whole seconds move the instant).
pub fn claim_time(r: &mut Rng, t: i128) -> Value {
    match r.below(5) {
        0 => json!(t.div_euclid(S) as i64),
        1 => json!(t.div_euclid(S) as i64 + 1),
        2 if t.abs() < 4_000_000_000 * S => {
            // one decimal of a binary fraction is exact
            let half = t.div_euclid(S) as f64 + *r.pick(&[0.5, 0.25, 0.75]);
            json!(half)
        }
        _ => json!(rfc3339(r, t)),
    }
}

// ---------------------------------------------------------------- credentials and metadata

fn opt(m: &mut Map<String, Value>, r: &mut Rng, key: &str, f: impl FnOnce(&mut Rng) -> Value) {
    match r.below(8) {
        0..=4 => {
            let v = f(r);
            m.insert(key.into(), v);
        }
        _ => {}
    }
}

/// How many elements: up to `usual`, now and then up to `many`.
pub fn some(r: &mut Rng, usual: usize, many: usize) -> usize {
    if let Some(n) = dict::length(r, 160, 2 * many + 20) {
        return n;
    }
    if r.one_in(80) {
        usual + r.below(many)
    } else {
        r.below(usual + 1)
    }
}

pub fn strings(r: &mut Rng, max: usize) -> Value {
    let n = some(r, max, 60);
    Value::Array((0..n).map(|_| json!(text(r))).collect())
}

pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.flip()),
        2 if r.one_in(8) => json!(*r.pick(&[i64::MIN, i64::MAX, i64::from(i32::MIN), i64::from(u32::MAX), 1 << 53, (1 << 53) + 1, 0, -1])),
        2 => match dict::number(r, 8).and_then(|n| i64::try_from(n).ok()) {
            Some(n) => json!(if r.one_in(4) { n.saturating_neg() } else { n }),
            None => json!(r.range(-1000, 1000)),
        },
        3 => json!(r.u64()),
        4 => json!(r.range(-1_000_000, 1_000_000) as f64 / 8.0),
        5 => json!(text(r)),
        6 => {
            let n = some(r, 3, 70);
            let d = if n > 3 { 0 } else { depth - 1 };
            Value::Array((0..n).map(|_| any_json(r, d)).collect())
        }
        _ => {
            let n = some(r, 3, 70);
            let d = if n > 3 { 0 } else { depth - 1 };
            Value::Object((0..n).map(|_| (text(r), any_json(r, d))).collect())
        }
    }
}

pub fn subject_map(r: &mut Rng) -> Value {
    let n = some(r, 3, 40);
    Value::Object(
        (0..n)
            .map(|_| {
                let mut m = Map::new();
                opt(&mut m, r, "mandatory", |r| json!(r.flip()));
                opt(&mut m, r, "value_type", |r| {
                    if r.flip() {
                        json!(text(r))
                    } else {
                        json!(*r.pick(&["string", "number", "image/jpeg"]))
                    }
                });
                opt(&mut m, r, "display", |r| {
                    let n = r.below(3);
                    Value::Array(
                        (0..n)
                            .map(|_| {
                                let mut d = Map::new();
                                opt(&mut d, r, "name", |r| json!(text(r)));
                                opt(&mut d, r, "locale", |r| json!(*r.pick(&["en-US", "fr", "ja-JP", ""])));
                                Value::Object(d)
                            })
                            .collect(),
                    )
                });
                let k = if r.flip() { text(r) } else { (*r.pick(&["given_name", "degree", "gpa", "family_name"])).to_owned() };
                (k, Value::Object(m))
            })
            .collect(),
    )
}

pub const FORMATS: &[&str] = &["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"];

pub fn profile_of(r: &mut Rng, format: &str) -> Value {
    let mut m = Map::new();
    m.insert("format".into(), json!(format));
    if format == "mso_mdoc" {
        m.insert("doctype".into(), json!(text(r)));
        opt(&mut m, r, "claims", subject_map);
    } else {
        if format == "ldp_vc" {
            let n = r.below(4);
            let ctx: Vec<Value> = (0..n)
                .map(|_| {
                    if r.one_in(3) {
                        let n = r.below(3);
                        Value::Object((0..n).map(|_| (text(r), any_json(r, 2))).collect())
                    } else if r.flip() {
                        json!("https://www.w3.org/2018/credentials/v1")
                    } else {
                        json!(text(r))
                    }
                })
                .collect();
            m.insert("@context".into(), Value::Array(ctx));
        }
        let t = strings(r, 3);
        m.insert("types".into(), t);
        opt(&mut m, r, "credentialSubject", subject_map);
    }
    opt(&mut m, r, "order", |r| strings(r, 3));
    Value::Object(m)
}

pub fn profile(r: &mut Rng) -> Value {
    let f = *r.pick(FORMATS);
    profile_of(r, f)
}

fn display(r: &mut Rng) -> Value {
    let n = r.below(3);
    Value::Array(
        (0..n)
            .map(|_| {
                let mut m = Map::new();
                m.insert("name".into(), json!(text(r)));
                opt(&mut m, r, "locale", |r| json!(*r.pick(&["en-US", "fr", "ja-JP"])));
                opt(&mut m, r, "logo", |r| {
                    let mut l = Map::new();
                    opt(&mut l, r, "url", |r| json!(url(r)));
                    opt(&mut l, r, "alt_text", |r| json!(text(r)));
                    Value::Object(l)
                });
                opt(&mut m, r, "description", |r| json!(text(r)));
                opt(&mut m, r, "background_color", |_| json!("#12107c"));
                opt(&mut m, r, "text_color", |_| json!("#FFFFFF"));
                Value::Object(m)
            })
            .collect(),
    )
}

pub fn supported(r: &mut Rng, id: Option<String>) -> Value {
    let mut v = profile(r);
    let m = v.as_object_mut().unwrap();
    if let Some(id) = id {
        m.insert("id".into(), json!(id));
    } else if r.one_in(4) {
        m.insert("id".into(), Value::Null);
    }
    opt(m, r, "cryptographic_binding_methods_supported", |r| {
        let mut v = vec![json!("did:key"), json!("jwk"), json!("cose_key"), json!("did")];
        r.shuffle(&mut v);
        v.truncate(r.below(5));
        Value::Array(v)
    });
    opt(m, r, "cryptographic_suites_supported", |r| {
        let mut v = vec![json!("ES256K"), json!("EdDSA"), json!("Ed25519Signature2018")];
        r.shuffle(&mut v);
        v.truncate(r.below(4));
        Value::Array(v)
    });
    opt(m, r, "display", display);
    v
}

pub fn unique_ids(r: &mut Rng, n: usize) -> Vec<Option<String>> {
    let mut ids: Vec<Option<String>> = vec![];
    let mut tries = 0;
    while ids.len() < n {
        tries += 1;
        let id = match r.below(6) {
            0 => None,
            1 => Some(text(r)),
            2 => ids.iter().flatten().next().cloned().map(|s| near(r, &s).0),
            _ => Some(format!("{}_{}", r.pick(&["UniversityDegree", "DriversLicense", "cred"]), token(r, 5))),
        };
        if id.is_none() || !ids.contains(&id) || tries > 200 + 3 * n {
            if id.is_some() && ids.contains(&id) {
                ids.push(None);
            } else {
                ids.push(id);
            }
        }
    }
    ids
}

/// Issuer metadata whose present ids are distinct.
pub fn metadata(r: &mut Rng) -> Value {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 if r.one_in(12) => match dict::length(r, 3, 300) {
            Some(n) => n,
            None => 30 + r.below(80),
        },
        2 => 5 + r.below(12),
        _ => 1 + r.below(4),
    };
    let ids = unique_ids(r, n);
    let creds: Vec<Value> = ids.into_iter().map(|id| supported(r, id)).collect();
    let mut m = Map::new();
    m.insert("credential_issuer".into(), json!(if r.one_in(4) { ident(r) } else { url(r) }));
    opt(&mut m, r, "authorization_server", |r| json!(url(r)));
    m.insert("credential_endpoint".into(), json!(url(r)));
    opt(&mut m, r, "batch_credential_endpoint", |r| json!(url(r)));
    m.insert("credentials_supported".into(), Value::Array(creds));
    if r.one_in(3) {
        m.insert("display".into(), json!([{"name": text(r), "locale": "en-US"}]));
    }
    if r.one_in(4) {
        let k = dict::fresh_word(r, 2).unwrap_or_else(|| format!("x_{}", token(r, 4)));
        if !m.contains_key(&k) {
            let v = any_json(r, 2);
            m.insert(k, v);
        }
    }
    Value::Object(m)
}

/// Every id present in the metadata.
pub fn ids_of(meta: &Value) -> Vec<String> {
    meta["credentials_supported"]
        .as_array()
        .into_iter()
        .flatten()
        .filter_map(|c| c["id"].as_str().map(str::to_owned))
        .collect()
}

/// Offered credentials that the metadata knows.
pub fn offered(r: &mut Rng, meta: &Value) -> Vec<Value> {
    let ids = ids_of(meta);
    let n = some(r, 3, 70);
    (0..n)
        .map(|_| {
            if !ids.is_empty() && r.flip() {
                json!(r.pick(&ids))
            } else {
                profile(r)
            }
        })
        .collect()
}

/// Like `offered`, and sometimes with ids that the metadata does not list.
pub fn offered_loosely(r: &mut Rng, meta: &Value) -> Vec<Value> {
    let mut v = offered(r, meta);
    if r.one_in(6) {
        let id = match ids_of(meta).first() {
            Some(i) if r.flip() => near(r, i).0,
            _ => ident(r),
        };
        let at = r.below(v.len() + 1);
        v.insert(at, json!(id));
    }
    v
}

pub fn pre_flow(r: &mut Rng, code: &str) -> Value {
    match r.below(4) {
        0 => json!({"pre-authorized_code": code, "user_pin_required": true}),
        1 => json!({"pre-authorized_code": code, "user_pin_required": false}),
        _ => json!({ "pre-authorized_code": code }),
    }
}

pub fn auth_flow(r: &mut Rng) -> Value {
    match r.below(3) {
        0 => json!({}),
        1 => json!({"issuer_state": null}),
        _ => json!({"issuer_state": ident(r)}),
    }
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn offer(issuer: &str, credentials: Vec<Value>, auth: Option<Value>, pre: Option<Value>) -> Value {
    let mut g = Map::new();
    if let Some(a) = auth {
        g.insert("authorization_code".into(), a);
    }
    if let Some(p) = pre {
        g.insert(PRE.into(), p);
    }
    json!({"credential_issuer": issuer, "credentials": credentials, "grants": g})
}

// ---------------------------------------------------------------- DID documents

pub fn did(r: &mut Rng) -> String {
    if let Some(w) = dict::word(r, 60) {
        let w = w.strip_prefix("did:").unwrap_or(&w).to_owned();
        if !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '_' | ':')) && !w.starts_with(':') && !w.ends_with(':') {
            if w.contains(':') && w.split(':').next().unwrap_or("").chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) {
                return format!("did:{w}:{}", token(r, 12));
            }
            if w.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) {
                return format!("did:{w}:{}", token(r, 12));
            }
            return format!("did:example:{}{w}", token(r, 3));
        }
    }
    match r.below(9) {
        7 => format!("did:web:{}%3a{}:{}", *r.pick(&["example.com", "localhost"]), r.below(65_536), token(r, 6)),
        8 => format!("did:example:{}%2F%2f{}%41", token(r, 3), token(r, 3)),
        0 => format!("did:key:z6Mk{}", token(r, 40).replace(['-', '_'], "x")),
        1 => format!("did:web:example.com%3A8443:{}", token(r, 6)),
        2 => format!("did:example:{}", token(r, 100)),
        3 => format!("did:ion:{}:{}", token(r, 46), token(r, 20)),
        4 => "did:example:123".to_owned(),
        5 => format!("did:example:{}.{}_{}", token(r, 3), token(r, 2), token(r, 2)),
        _ => format!("did:{}:{}", r.pick(&["example", "sov", "peer", "ebsi"]), token(r, 22)),
    }
}

pub fn did_url_rest(r: &mut Rng) -> String {
    if let Some(w) = dict::word(r, 60) {
        let w = w.trim_start_matches('#');
        if !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '_')) {
            return if r.flip() { format!("#{w}") } else { format!("#{w}{}", token(r, 3)) };
        }
    }
    match r.below(10) {
        0 => "#keys-1".into(),
        1 => "#key-1".into(),
        2 => "#key-10".into(),
        3 => format!("#{}", token(r, 44)),
        4 => "#0".into(),
        5 => format!("/path/{}#key-1", token(r, 3)),
        6 => "?versionId=1#key-1".into(),
        7 => format!("/a/b?service=files&x={}#k", token(r, 3)),
        8 => "?a=/b".into(),
        _ => format!("#{}", token(r, 8)),
    }
}

/// One verification method with a fresh key. Returns the method.
pub fn method(r: &mut Rng, id: &str, controller: &str, supported: bool) -> Value {
    let n = if supported && r.one_in(40) { *r.pick(&[33usize, 31, 64, 16, 34, 1, 48]) } else { 32 };
    let n = if supported { dict::length(r, 400, 200).filter(|n| *n > 0).unwrap_or(n) } else { n };
    let mut key = r.bytes(n);
    if n > 2 && r.one_in(10) {
        let p: &[u8] = r.pick(&[&[0xed, 0x01][..], &[0x04], &[0x02], &[0, 0], &[0x30, 0x2a], &[0xff]]);
        key[..p.len()].copy_from_slice(p);
    }
    if n == 34 && r.flip() {
        key[..2].copy_from_slice(&[0xed, 0x01]);
    }
    let mut m = Map::new();
    m.insert("id".into(), json!(id));
    m.insert("controller".into(), json!(controller));
    let x = b64(&key);
    let (ty, name, v): (&str, &str, Value) = if supported {
        match r.below(9) {
            8 => {
                // the private part published as well, or other members beside the key
                let mut k = json!({"kty": "OKP", "crv": "Ed25519", "x": x});
                let o = k.as_object_mut().unwrap();
                if r.flip() {
                    o.insert("d".into(), json!(b64(r.bytes(32))));
                }
                opt(o, r, "use", |_| json!("sig"));
                opt(o, r, "key_ops", |_| json!(["verify"]));
                opt(o, r, "kid", |r| json!(ident(r)));
                opt(o, r, "y", |r| json!(b64(r.bytes(32))));
                ("JsonWebKey2020", "publicKeyJwk", k)
            }
            0 | 1 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "OKP", "crv": "Ed25519", "x": x})),
            2 => ("Ed25519VerificationKey2018", "publicKeyJwk", json!({"kty": "OKP", "crv": "Ed25519", "x": x, "alg": "EdDSA", "kid": token(r, 4)})),
            3 => ("Ed25519VerificationKey2018", "publicKeyBase58", json!(base58(&key))),
            4 => ("Ed25519VerificationKey2018", "publicKeyMultibase", json!(format!("z{}", base58(&key)))),
            5 => ("Ed25519VerificationKey2020", "publicKeyMultibase", {
                let mut k = vec![0xed, 0x01];
                k.extend(&key);
                json!(format!("z{}", base58(&k)))
            }),
            6 => ("Ed25519VerificationKey2018", "publicKeyHex", json!(if r.flip() { hex(&key) } else { format!("0x{}", hex(&key)) })),
            _ => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "EC", "crv": "ed25519", "x": x, "y": x, "alg": "EdDSA"})),
        }
    } else {
        let y = b64(r.bytes(32));
        match r.below(13) {
            0 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "EC", "crv": "P-256", "x": x, "y": y})),
            1 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "EC", "crv": "P-384", "x": x, "y": y, "alg": "ES384"})),
            2 => ("EcdsaSecp256k1VerificationKey2019", "publicKeyJwk", json!({"kty": "EC", "crv": "secp256k1", "x": x, "y": y})),
            3 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "RSA", "n": b64(r.bytes(256)), "e": "AQAB"})),
            4 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "oct", "k": x})),
            5 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "OKP", "crv": "X25519", "x": x})),
            6 => ("JsonWebKey2020", "publicKeyBase58", json!(base58(&key))),
            7 => ("X25519KeyAgreementKey2019", "publicKeyBase58", json!(base58(&key))),
            8 => ("Ed25519VerificationKey2020", "publicKeyMultibase", json!(format!("z{}", base58(&key)))),
            9 => ("Ed25519VerificationKey2020", "publicKeyMultibase", {
                let mut k = vec![0xec, 0x01];
                k.extend(&key);
                json!(format!("z{}", base58(&k)))
            }),
            10 => ("Ed25519VerificationKey2018", "publicKeyBase58", json!(format!("0OIl{}", base58(&key)))),
            11 => ("Ed25519VerificationKey2018", "blockchainAccountId", json!("eip155:1:0xab16a96d359ec26a11e2c2b3d8f8b8942d5bfcdb")),
            _ => {
                // two representations at once
                m.insert("publicKeyBase58".into(), json!(base58(&r.bytes(32))));
                ("Ed25519VerificationKey2018", "publicKeyJwk", json!({"kty": "OKP", "crv": "Ed25519", "x": x}))
            }
        }
    };
    m.insert("type".into(), json!(ty));
    m.insert(name.into(), v);
    Value::Object(m)
}

pub const SECTIONS: &[&str] =
    &["verificationMethod", "authentication", "assertionMethod", "keyAgreement", "capabilityInvocation", "capabilityDelegation", "publicKey"];

/// A DID document of `did` with the method `did+rest` (absent if `target` is None) among look-alikes.
pub fn did_document(r: &mut Rng, did: &str, rest: &str, target: Option<bool>) -> Value {
    let mut methods: Vec<(usize, Value)> = vec![];
    let kid = format!("{did}{rest}");
    let mut used: Vec<String> = vec![];
    let id_ok = |id: &str, used: &mut Vec<String>| {
        let abs = if id.starts_with('#') || id.starts_with('/') || id.starts_with('?') { format!("{did}{id}") } else { id.to_owned() };
        if abs == kid || used.contains(&abs) {
            false
        } else {
            used.push(abs);
            true
        }
    };
    let decoys = r.below(6);
    for _ in 0..decoys {
        let id = match r.below(9) {
            0 => near(r, &kid).0,
            1 => format!("{did}{}", near(r, rest).0),
            2 => format!("{}{rest}", near(r, did).0),
            3 => {
                let d = self::did(r);
                format!("{d}{rest}")
            }
            4 => format!("{did}{}", did_url_rest(r)),
            5 => did_url_rest(r),
            6 => format!("{kid}0"),
            7 => rest.trim_start_matches('#').to_owned(),
            _ => did.to_owned(),
        };
        if id.is_empty() || !id_ok(&id, &mut used) {
            continue;
        }
        let ok = !r.one_in(4);
        let mut m = method(r, &id, did, ok);
        if r.one_in(4) {
            if let Some(k) = m.get_mut("publicKeyJwk").and_then(Value::as_object_mut) {
                let name = match r.below(4) {
                    0 => kid.clone(),
                    1 => rest.to_owned(),
                    _ => rest.rsplit('#').next().unwrap_or("").to_owned(),
                };
                k.insert("kid".into(), json!(name));
            }
        }
        if r.one_in(8) {
            m["controller"] = json!(kid);
        }
        methods.push((r.below(SECTIONS.len()), m));
    }
    let mut foreign = false;
    if let Some(ok) = target {
        let id = if r.one_in(3) && !rest.is_empty() { rest.to_owned() } else { kid.clone() };
        foreign = id == kid && r.one_in(24);
        let m = method(r, &id, did, ok);
        let s = if r.flip() { 0 } else { r.below(SECTIONS.len()) };
        methods.push((s, m));
    }
    r.shuffle(&mut methods);
    let mut doc = Map::new();
    doc.insert("@context".into(), if r.flip() { json!("https://www.w3.org/ns/did/v1") } else { json!(["https://www.w3.org/ns/did/v1", "https://w3id.org/security/v1"]) });
    // (the method of one DID in the document of another)
    doc.insert("id".into(), json!(if foreign { near(r, did).0 } else { did.to_owned() }));
    for (s, m) in methods {
        doc.entry(SECTIONS[s]).or_insert_with(|| json!([])).as_array_mut().unwrap().push(m);
    }
    // references to methods, and sections without methods
    if r.flip() {
        let s = SECTIONS[1 + r.below(SECTIONS.len() - 2)];
        let reference = if r.flip() { json!(kid) } else { json!(rest) };
        let at = doc.entry(s).or_insert_with(|| json!([]));
        at.as_array_mut().unwrap().insert(0, reference);
    }
    if r.one_in(3) {
        doc.insert("service".into(), json!([{"id": "#linked", "type": "LinkedDomains", "serviceEndpoint": "https://example.com"}]));
    }
    if r.one_in(4) {
        doc.insert("alsoKnownAs".into(), json!(["did:example:other"]));
    }
    Value::Object(doc)
}

// ---------------------------------------------------------------- proofs

#[derive(Clone, Debug)]
pub struct Proof {
    pub header: Vec<(String, Value)>,
    pub body: Vec<(String, Value)>,
    pub sig: Option<String>,
    /// 0 compact, 1 spaces, 2 pretty
    pub style: u8,
}

pub fn render_object(o: &[(String, Value)], style: u8) -> String {
    let q = |s: &str| serde_json::to_string(s).unwrap();
    let (open, sep, colon, close) = match style {
        0 => ("{", ",", ":", "}"),
        1 => ("{ ", ", ", ": ", " }"),
        _ => ("{\n\t", ",\n\t", " : ", "\r\n}"),
    };
    let inner: Vec<String> = o.iter().map(|(k, v)| format!("{}{colon}{v}", q(k))).collect();
    format!("{open}{}{close}", inner.join(sep))
}

impl Proof {
    pub fn render(&self) -> String {
        let h = b64(render_object(&self.header, self.style));
        let b = b64(render_object(&self.body, self.style));
        match &self.sig {
            Some(s) => format!("{h}.{b}.{s}"),
            None => format!("{h}.{b}"),
        }
    }
    pub fn set_header(&mut self, k: &str, v: Value) {
        set(&mut self.header, k, v);
    }
    pub fn set_body(&mut self, k: &str, v: Value) {
        set(&mut self.body, k, v);
    }
    pub fn unset_header(&mut self, k: &str) {
        self.header.retain(|(n, _)| n != k);
    }
    pub fn unset_body(&mut self, k: &str) {
        self.body.retain(|(n, _)| n != k);
    }
}

fn set(o: &mut Vec<(String, Value)>, k: &str, v: Value) {
    if let Some(e) = o.iter_mut().find(|(n, _)| n == k) {
        e.1 = v;
    } else {
        o.push((k.into(), v));
    }
}

pub const ALGS_OK: &[&str] =
    &["RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K", "ECDH-ES"];
pub const ALGS_BAD: &[&str] = &["none", "HS256", "HS384", "HS512"];

pub fn casing(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s.chars().map(|c| if r.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_owned(),
    }
}

pub fn signature(r: &mut Rng) -> String {
    let n = *r.pick(&[64, 64, 64, 64, 96, 132, 256, 1, 2, 512, 5000]);
    let mut s = r.bytes(n);
    if r.one_in(6) {
        // runs of zeros and of ones at the ends
        let (a, b) = (r.below(n), r.below(n));
        s[..a].fill(0);
        s[b..].fill(if r.flip() { 0 } else { 0xff });
    }
    b64(s)
}

/// A credential request evaluation, as data.
#[derive(Clone, Debug)]
pub struct Scn {
    pub now: i128,
    pub meta: Value,
    pub format: Value,
    pub proof_type: Option<Value>,
    /// members of the proof object besides proof_type and jwt
    pub proof_extra: Map<String, Value>,
    pub proof: Option<Proof>,
    /// replaces the rendered proof
    pub raw: Option<String>,
    pub offer: Option<Value>,
    pub as_meta: bool,
    pub doc: Option<Value>,
    pub opts: Option<Value>,
    pub tags: Vec<String>,
}

impl Scn {
    pub fn jwt(&self) -> Option<String> {
        self.raw.clone().or_else(|| self.proof.as_ref().map(Proof::render))
    }
    pub fn request(&self) -> Value {
        let mut v = self.format.clone();
        if let Some(j) = self.jwt() {
            let mut p = self.proof_extra.clone();
            if let Some(t) = &self.proof_type {
                p.insert("proof_type".into(), t.clone());
            }
            p.insert("jwt".into(), json!(j));
            v.as_object_mut().unwrap().insert("proof".into(), Value::Object(p));
        }
        v
    }
    pub fn input(&self) -> Value {
        json!({
            "now_ns": self.now.to_string(), "issuer_metadata": self.meta, "credential_request": self.request(),
            "credential_offer": self.offer, "authorization_server_metadata": self.as_meta, "did_document": self.doc,
            "options": self.opts, "tags": self.tags,
            "proof_header": self.proof.as_ref().map(|p| render_object(&p.header, 0)),
            "proof_body": self.proof.as_ref().map(|p| render_object(&p.body, 0)),
        })
    }
    pub fn tag(&mut self, t: impl Into<String>) {
        self.tags.push(t.into());
    }
    pub fn kid(&self) -> Option<String> {
        let p = self.proof.as_ref()?;
        p.header.iter().find(|(k, _)| k == "kid").and_then(|(_, v)| v.as_str()).map(str::to_owned)
    }
}

pub fn lifetime(r: &mut Rng) -> u32 {
    if let Some(n) = dict::number(r, 30).and_then(|n| u32::try_from(n).ok()) {
        return n;
    }
    match r.below(4) {
        0 => *r.pick(&[0, 1, 2, 59, 60, 61]),
        1 => *r.pick(&[0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX, u32::MAX - 1, 65_535, 65_536, 4_294_967, 4_294_968, 2_147_484]),
        2 => r.u64() as u32,
        _ => *r.pick(&[300, 600, 3600, 86_400, 31_536_000]),
    }
}

/// A value for a member that has no meaning: anything, or what a member with a similar name would hold.
pub fn decoy(r: &mut Rng, t: i128) -> Value {
    match r.below(6) {
        0 | 1 => any_json(r, 2),
        2 => json!(ident(r)),
        3 => {
            let d = slack(r);
            claim_time(r, t + d)
        }
        4 => json!(did(r)),
        _ => json!(*r.pick(&["EdDSA", "openid4vci-proof+jwt", "jwt", "none"])),
    }
}

/// A scenario in which every documented condition holds, in a random configuration.
pub fn honest(r: &mut Rng) -> Scn {
    let t = now(r);
    let meta = metadata(r);
    let issuer = meta["credential_issuer"].as_str().unwrap().to_owned();
    let nonce = ident(r);
    let client = match r.below(3) {
        0 => Some(ident(r)),
        _ => None,
    };
    let creds = offered_loosely(r, &meta);
    let code = ident(r);
    // grants: mostly pre-authorized only
    let (auth, pre) = match r.below(8) {
        0 => (Some(auth_flow(r)), Some(pre_flow(r, &code))),
        1 => (Some(auth_flow(r)), None),
        2 => (None, None),
        _ => (None, Some(pre_flow(r, &code))),
    };
    let pure_pre = auth.is_none() && pre.is_some();
    let offer_issuer = if r.one_in(4) { ident(r) } else { issuer.clone() };
    let offer = offer(&offer_issuer, creds, auth, pre);

    let did = did(r);
    let rest = did_url_rest(r);
    let kid = format!("{did}{rest}");
    let doc = did_document(r, &did, &rest, Some(true));

    let mut header = vec![
        ("typ".to_owned(), json!(casing(r, "openid4vci-proof+jwt"))),
        ("alg".to_owned(), if r.flip() { json!("EdDSA") } else { json!(*r.pick(ALGS_OK)) }),
        ("kid".to_owned(), json!(kid)),
    ];
    for _ in 0..r.below(3) {
        let k = (*r.pick(&[
            "cty", "b64", "x5u", "jku", "x", "trust_chain", "Kid", "JWK", "x5c#", "x5t", "x5t#S256", "type", "algorithm", "key_id", "keyId", "did", "key", "zip", "nonce", "iat", "exp",
        ])).to_owned();
        let k = dict::fresh_word(r, 2).unwrap_or(k);
        if header.iter().all(|(n, _)| *n != k) {
            let v = decoy(r, t);
            header.push((k, v));
        }
    }
    let age = slack(r) % (400 * 86_400 * S);
    let iat = if r.one_in(6) { t + age } else { t - age.abs() };
    let mut body = vec![
        ("aud".to_owned(), json!(issuer)),
        ("iat".to_owned(), claim_time(r, iat)),
        ("nonce".to_owned(), json!(nonce)),
    ];
    match (&client, pure_pre) {
        (Some(c), _) => body.push(("iss".into(), json!(c))),
        (None, true) => {
            if r.one_in(3) {
                let iss = if r.one_in(4) { did.clone() } else { ident(r) };
                body.push(("iss".into(), json!(iss)));
            }
        }
        (None, false) => {
            if r.one_in(4) {
                body.push(("iss".into(), Value::Null));
            }
        }
    }
    if r.one_in(4) {
        body.push(("sub".into(), if r.flip() { json!(text(r)) } else { Value::Null }));
    }
    if r.one_in(4) {
        let d = slack(r).abs();
        body.push(("nbf".into(), json!(rfc3339(r, (t - d).max(-62_000_000_000 * S)))));
    }
    if r.one_in(4) {
        let d = slack(r).abs().max(1);
        body.push(("exp".into(), json!(rfc3339(r, t + d))));
    }
    for _ in 0..r.below(3) {
        let k = (*r.pick(&[
            "jti", "htu", "x", "client_id", "Nonce", "c_nonce", "audience", "issuer", "subject", "issued_at", "issuedAt", "not_before", "notBefore", "expires_at", "expires", "expiry",
            "exp_at", "expires_in", "auth_time", "azp", "kid", "jwk", "typ", "alg", "nonces", "cnonce", "vc", "vp", "Iss", "AUD", "EXP", "NBF",
        ])).to_owned();
        if body.iter().all(|(n, _)| *n != k) {
            let v = decoy(r, t);
            body.push((k, v));
        }
    }
    r.shuffle(&mut header);
    r.shuffle(&mut body);
    let style = *r.pick(&[0, 0, 0, 1, 2]);

    let life = lifetime(r);
    let slack_left = slack(r).abs();
    let created = t + slack_left - life as i128 * S;
    let mut o = Map::new();
    o.insert(
        "c_nonce".into(),
        json!({"c_nonce_expires_in": life, "expected_c_nonce": nonce, "c_nonce_created_at": rfc3339(r, created)}),
    );
    if let Some(c) = &client {
        o.insert("client_id".into(), json!(c));
    } else if r.flip() {
        o.insert("client_id".into(), Value::Null);
    }
    Scn {
        now: t,
        meta,
        format: profile(r),
        proof_type: match r.below(6) {
            0 => None,
            _ => Some(json!(casing(r, "jwt"))),
        },
        proof_extra: {
            let mut m = Map::new();
            if r.one_in(6) {
                let k = *r.pick(&["type", "proofType", "Proof_type", "proof_types", "cwt", "token", "JWT", "jws", "kid", "nonce"]);
                m.insert(k.into(), decoy(r, t));
            }
            m
        },
        proof: Some(Proof { header, body, sig: Some(signature(r)), style }),
        raw: None,
        offer: Some(offer),
        as_meta: false,
        doc: Some(doc),
        opts: Some(Value::Object(o)),
        tags: vec![],
    }
}
