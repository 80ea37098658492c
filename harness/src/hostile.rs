//! C22: nothing makes a public operation panic, abort or hang. Hostile inputs are put to the real
//! library in child processes; panics are caught and attributed, a child that dies or stops making
//! progress is attributed to the case it had announced, and that case is run again alone.
use crate::build;
use crate::clock;
use crate::core::{guarded, seed_for, Ctx, Rng};
use crate::errors;
use crate::evalx;
use crate::forms;
use crate::gen::*;
use crate::tokens;
use crate::Def;
use chrono::{DateTime, Utc};
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions, GrantType};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId, CredentialOrIds,
    CredentialSuccessResponse, EvaluateCredentialRequestOptions,
};
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader, ProofJwtAlgorithm, ProofJwtBody, ProofJwtHeader};
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::{CredentialFormatProfile, CredentialFormatProfileOrEncoded};
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::fmt::Debug;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};

const QUICK: u64 = 300_000;
const THOROUGH: u64 = 6_000_000;

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C22",
        quick: 0,
        thorough: 0,
        case: case_hostile,
        extra: Some(supervise),
        required: &[
            "proof parsed", "proof refused", "proof built field by field", "issuer metadata parsed", "issuer metadata refused", "credential request parsed",
            "credential request refused", "offer parsed", "offer refused", "DID document parsed", "DID document refused", "options parsed", "options refused",
            "token request parsed", "token request refused", "evaluation approved", "evaluation refused", "pre-evaluation approved",
            "pre-evaluation refused", "token granted", "token refused", "offer created", "offer not created", "response created", "response not created", "error described",
            "text over 10000 bytes", "nesting over 60", "extreme instant", "extreme number", "raw bytes", "many entries",
            "keys with unusual members", "case of another property",
        ],
        rule: "one case = hostile input to one group of operations, in a child process: random and mutated bytes, mutated JSON (type confusion, extreme numbers, deep nesting, long and odd strings), extreme instants, durations and clock readings, mutated DID documents and key ids, values built directly; violated by a panic, an abort, a stack overflow, or a call that does not return; non-trivial = distinct input",
    }]
}

// ------------------------------------------------------------------ hostile values

fn number(r: &mut Rng) -> Value {
    match r.below(16) {
        0 => json!(i64::MIN),
        1 => json!(i64::MAX),
        2 => json!(u64::MAX),
        3 => json!(1e308),
        4 => json!(-1e308),
        5 => json!(5e-324),
        6 => json!(-0.0),
        7 => json!(i64::from(i32::MAX) + r.range(-1, 1)),
        8 => json!(i64::from(u32::MAX) + r.range(-1, 1)),
        9 => json!(r.u64()),
        10 => json!(r.u64() as i64),
        11 => json!(f64::from_bits(r.u64())),
        12 => json!(r.range(-8_400_000_000_000, 8_400_000_000_000)),
        13 => json!(*r.pick(&[8_210_298_412_799i64, 8_210_298_412_800, 8_210_266_876_799, 8_210_266_876_800, -8_334_601_228_800, -8_334_601_228_801, -8_334_632_851_200])),
        14 => json!(r.range(-8_400_000_000_000, 8_400_000_000_000) as f64 + 0.999_999_999_9),
        _ => json!(r.range(-5, 5) as f64 / 3.0),
    }
}

fn string(r: &mut Rng) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => {
            let n = *r.pick(&[255, 256, 4096, 20_000, 70_000]);
            r.pick(&["a", ".", "é", "\0", "=", "%", "#", "did:", "🎓", "\"", "\\", "A"]).repeat(n)
        }
        2 => instant_text(r),
        3 => did(r) + &did_url_rest(r),
        4 => key_id(r),
        5 => b64(any_json(r, 2).to_string()),
        6 => {
            let n = r.below(80);
            b64(r.bytes(n))
        }
        7 => {
            let n = r.below(80);
            base58(&r.bytes(n))
        }
        8 => {
            let n = r.below(60);
            let prefix = *r.pick(&["z", "f", "u", "m", "M", "U", "b", "7", "0", "k", "\0", "🚀"]);
            format!("{prefix}{}", match r.below(3) {
                0 => base58(&r.bytes(n)),
                1 => hex(&r.bytes(n)),
                _ => b64(r.bytes(n)),
            })
        }
        9 => (0..r.below(20)).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
        10 => (*r.pick(&["İ", "ǅ", "ſ", "ß", "K", "OPENID4VCI-PROOF+JWT", "openİd4vci-proof+jwt", "JWT", "Bearer", PRE, "authorization_code"])).to_owned(),
        11 => any_json(r, 2).to_string(),
        _ => text(r),
    }
}

fn instant_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => (*r.pick(&[
            "-262143-01-01T00:00:00Z", "+262142-12-31T23:59:59.999999999Z", "-262144-01-01T00:00:00Z", "+262143-01-01T00:00:00Z", "0000-01-01T00:00:00Z",
            "9999-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "2016-12-31T23:59:60Z", "2016-12-31T23:59:60.999999999Z", "+262142-12-31T23:59:60Z", "+262142-12-31T23:59:59-23:59",
            "-262143-01-01T00:00:00+23:59", "9999-12-31T23:59:59-23:59", "0000-01-01T00:00:00+23:59", "2024-02-30T00:00:00Z", "2023-02-29T00:00:00Z", "2024-01-01T24:00:00Z",
            "2024-01-01T00:00:00+24:00", "2024-01-01T00:00:00-99:99", "2024-01-01T00:00:00.9999999999999999999999Z", "2024-01-01 00:00:00Z", "2024-1-1T0:0:0Z",
            "99999999999999999999-01-01T00:00:00Z", "2024-01-01T00:00:00", "T", "-", "+", "Z", "2024-01-01T00:00:00\u{2212}01:00",
        ]))
        .to_owned(),
        1 => format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}{}", r.range(-270_000, 270_000), r.below(14), r.below(33), r.below(26), r.below(62), r.below(62), r.pick(&["Z", "+01:00", "-23:59", "+25:00", ""])),
        _ => {
            let i = extreme_instant(r);
            i.to_rfc3339()
        }
    }
}

fn extreme_instant(r: &mut Rng) -> DateTime<Utc> {
    match r.below(6) {
        0 => DateTime::<Utc>::MIN_UTC,
        1 => DateTime::<Utc>::MAX_UTC,
        2 => dt((8_210_266_876_799 - r.range(0, 5_000_000_000) as i128) * S + 999_999_999).unwrap_or_default(),
        3 => dt((-8_334_601_228_800 + r.range(0, 5_000_000_000) as i128) * S).unwrap_or_default(),
        4 => dt(r.range(-8_334_601_228_800, 8_210_266_876_799) as i128 * S + r.range(0, 999_999_999) as i128).unwrap_or_default(),
        _ => dt(now(r)).unwrap_or_default(),
    }
}

fn key_id(r: &mut Rng) -> String {
    match r.below(4) {
        0 => (*r.pick(&[
            "did:", "did::", "did:a", "did:a:", "did:a:b", "did:a:b#", "did:a:b#c#d", "did:a:b?", "did:a:b?#", "did:a:b/", "did:a:b//c?d#e", "did:a:b;c", "did", "DID:a:b", "#", "#a", "?",
            "did:key:z", "did:é:b", "did:a:%", "did:a:%zz", "did:a:\0", "did:a:b#\0", " did:a:b", "did:a:b ", "did:a:b?a=b&c#d?e", "did:a::::", "did:a:b?versionId=#",
        ]))
        .to_owned(),
        1 => {
            let a = did(r);
            format!("{a}{}{}", did_url_rest(r), r.pick(&["", "#", "?", "/", "#é", "%"]))
        }
        2 => {
            let s = did(r) + &did_url_rest(r);
            near(r, &s).0
        }
        _ => evalx::non_did_kid(r, "did:a:b", "#c"),
    }
}

fn nest(r: &mut Rng, n: usize) -> Value {
    let mut v = json!(1);
    for i in 0..n {
        v = match r.below(3) {
            0 => json!([v]),
            1 => json!({ "a": v }),
            _ => json!({ "": [v, i] }),
        };
    }
    v
}

fn hostile_value(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => json!(r.flip()),
        2 | 3 => number(r),
        4..=7 => json!(string(r)),
        8 => {
            let n = *r.pick(&[1, 5, 20, 60, 100]);
            nest(r, n)
        }
        9 => json!([]),
        10 => json!({}),
        11 => Value::Array((0..r.below(5)).map(|_| json!(string(r))).collect()),
        12 => json!([null, [null], {"": null}]),
        _ => any_json(r, 3),
    }
}

/// Change one node somewhere in a document.
fn mutate_node(r: &mut Rng, v: &mut Value) {
    // walk down
    let mut at = v;
    for _ in 0..8 {
        let children = match &*at {
            Value::Array(a) => a.len(),
            Value::Object(o) => o.len(),
            _ => 0,
        };
        if children == 0 || r.one_in(3) {
            break;
        }
        let i = r.below(children);
        at = match at {
            Value::Array(a) => &mut a[i],
            Value::Object(o) => o.iter_mut().nth(i).unwrap().1,
            _ => unreachable!(),
        };
    }
    match r.below(9) {
        0 => {
            let old = at.take();
            *at = json!([old]);
        }
        1 => {
            let old = at.take();
            *at = json!({ string(r): old });
        }
        2 => {
            if let Value::Object(o) = at {
                if let Some(k) = o.keys().nth(r.below(o.len())).cloned() {
                    o.remove(&k);
                }
            } else if let Value::Array(a) = at {
                a.pop();
            }
        }
        3 => {
            if let Value::Object(o) = at {
                let k = string(r);
                o.insert(k, hostile_value(r));
            } else if let Value::Array(a) = at {
                a.push(hostile_value(r));
            }
        }
        4 => {
            if let Value::Object(o) = at {
                if let Some(k) = o.keys().nth(r.below(o.len())).cloned() {
                    let old = o.remove(&k).unwrap();
                    let k = near(r, &k).0;
                    o.insert(k, old);
                }
            }
        }
        5 => {
            if let Value::String(s) = at {
                *s = match r.below(3) {
                    0 => near(r, s).0,
                    1 => format!("{s}{}", string(r)),
                    _ => s.chars().rev().collect(),
                };
            } else if let Value::Array(a) = at {
                if let Some(x) = a.first().cloned() {
                    a.extend(std::iter::repeat(x).take(r.below(4)));
                }
            }
        }
        _ => *at = hostile_value(r),
    }
}

pub fn mutated(r: &mut Rng, v: Value) -> Value {
    let mut v = v;
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3, 6]) {
        mutate_node(r, &mut v);
    }
    v
}

/// Change the text itself; no longer JSON in most cases.
fn mutated_text(r: &mut Rng, s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 5]) {
        let n = b.len();
        let at = r.below(n + 1);
        match r.below(8) {
            0 if n > 0 => b[at.min(n - 1)] ^= 1 << r.below(8),
            1 if n > 0 => b[at.min(n - 1)] = r.u64() as u8,
            2 => b.truncate(at),
            3 => {
                b.drain(..at);
            }
            4 => {
                let t: &[u8] = *r.pick(&[
                    &b"1e999"[..], b"-", b"\\ud800", b"\\u0000", b"\0", b"\xff\xfe", b"\xef\xbb\xbf", b"{", b"}", b"[", b"]", b",", b":", b"\"", b"null", b"-0", b"1e-999", b"0x1",
                    b"18446744073709551616", b"-9223372036854775809", b".", b"..", b"=", b"==",
                ]);
                b.splice(at..at, t.iter().copied());
            }
            5 => {
                let end = (at + r.below(40)).min(n);
                let t = b[at..end].to_vec();
                b.splice(at..at, t);
            }
            6 => {
                let k = *r.pick(&[1usize, 50, 127, 128, 129, 3000]);
                let t = r.pick(&["[", "{\"a\":", "[[", "\"", "9"]).repeat(k);
                b.splice(at..at, t.into_bytes());
            }
            _ => {
                let end = (at + r.below(20)).min(n);
                b.drain(at..end);
            }
        }
    }
    b
}

fn measure(ctx: &mut Ctx, v: &Value, depth: usize) {
    match v {
        Value::String(s) if s.len() > 10_000 => ctx.class("text over 10000 bytes"),
        Value::Number(n) if n.as_f64().map_or(false, |f| f.abs() > 1e15) => ctx.class("extreme number"),
        Value::Array(a) => {
            if depth == 60 {
                ctx.class("nesting over 60");
            }
            a.iter().for_each(|x| measure(ctx, x, depth + 1));
        }
        Value::Object(o) => {
            if depth == 60 {
                ctx.class("nesting over 60");
            }
            o.values().for_each(|x| measure(ctx, x, depth + 1));
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ operations

fn seen(ctx: &mut Ctx, key: &str) {
    ctx.decided(&key, true);
}

/// A value that was obtained: everything one can do with any value of the library.
fn surface<T: Serialize + Debug>(ctx: &mut Ctx, kind: &str, w: &Value, v: &T) {
    ctx.lib(&format!("serialize {kind}"), || w.clone(), || serde_json::to_string(v).map(|s| s.len()));
    ctx.lib(&format!("serialize {kind} to a value"), || w.clone(), || serde_json::to_value(v).is_ok());
    ctx.lib(&format!("format {kind}"), || w.clone(), || format!("{v:?}").len());
}

fn valid<T: Validatable>(ctx: &mut Ctx, kind: &str, w: &Value, v: &T) {
    if let Some(Err(e)) = ctx.lib(&format!("validate {kind}"), || w.clone(), || v.validate()) {
        described(ctx, w, || e.information());
    }
}

fn described(ctx: &mut Ctx, w: &Value, f: impl FnOnce() -> ErrorInformation) {
    ctx.class("error described");
    if let Some(i) = ctx.lib("information", || w.clone(), f) {
        ctx.lib("display information", || w.clone(), || format!("{i} {i:?}").len());
        ctx.lib("serialize information", || w.clone(), || serde_json::to_string(&i).map(|s| s.len()));
    }
}

fn parse<T: DeserializeOwned + Serialize + Debug>(ctx: &mut Ctx, kind: &str, w: &Value, bytes: &[u8]) -> Option<T> {
    let x = ctx.lib(&format!("parse {kind}"), || w.clone(), || serde_json::from_slice::<T>(bytes))?;
    match x {
        Ok(v) => {
            ctx.class(&format!("{kind} parsed"));
            surface(ctx, kind, w, &v);
            Some(v)
        }
        Err(_) => {
            ctx.class(&format!("{kind} refused"));
            None
        }
    }
}

/// Parse by text or by value, with or without damage.
fn get<T: DeserializeOwned + Serialize + Debug>(ctx: &mut Ctx, r: &mut Rng, kind: &str, v: Value) -> Option<T> {
    let v = mutated(r, v);
    measure(ctx, &v, 0);
    seen(ctx, &v.to_string());
    if r.one_in(3) {
        let x = ctx.lib(&format!("parse {kind} from a value"), || v.clone(), || serde_json::from_value::<T>(v.clone()))?;
        ctx.class(&format!("{kind} {}", if x.is_ok() { "parsed" } else { "refused" }));
        let x = x.ok()?;
        surface(ctx, kind, &v, &x);
        return Some(x);
    }
    let text = v.to_string();
    let bytes = if r.one_in(4) { mutated_text(r, &text) } else { text.into_bytes() };
    let w = json!(String::from_utf8_lossy(&bytes));
    parse(ctx, kind, &w, &bytes)
}

/// Everything a parsed or built proof offers.
pub fn drive_proof(ctx: &mut Ctx, r: &mut Rng, p: &ProofJwt, doc: Option<&Document>, w: &Value) {
    valid(ctx, "proof", w, p);
    valid(ctx, "proof header", w, &p.header);
    valid(ctx, "proof body", w, &p.body);
    if let Some(h) = &p.header.additional_header {
        valid(ctx, "proof key", w, h);
    }
    macro_rules! call {
        ($name:literal, $e:expr) => {
            if let Some(Err(e)) = ctx.lib($name, || w.clone(), || $e) {
                described(ctx, w, || e.information());
            }
        };
    }
    call!("verify", p.verify());
    call!("extract_did", p.extract_did());
    call!("extract_key_and_alg", p.extract_key_and_alg(doc));
    call!("header.extract_key_and_alg", p.header.extract_key_and_alg(doc));
    call!("to_signable_message", p.to_signable_message());
    call!("extract_signature", p.extract_signature());
    let c = string(r);
    call!("check_nonce", p.check_nonce(Some(c.clone())));
    call!("check_nonce", p.check_nonce(None));
    call!("check_iss", p.check_iss(Some(c.clone())));
    call!("check_iss", p.check_iss(None));
    call!("check_aud", p.check_aud(&c));
    ctx.lib("proof to string", || w.clone(), || TryInto::<String>::try_into(p).is_ok());
    surface(ctx, "proof", w, p);
}

/// A key with any of the members keys can have, in forms that fit and forms that do not.
fn rich_jwk(r: &mut Rng) -> Value {
    let mut k = evalx::jwk_value(r);
    for _ in 0..r.below(5) {
        let b = b64(r.bytes(*r.clone().pick(&[0usize, 1, 31, 32, 33, 48, 64, 256])));
        let (name, v) = match r.below(14) {
            0 => ("key_ops", (*r.pick(&[json!([]), json!([""]), json!(["verify"]), json!(["sign", "verify", ""]), json!(null), json!("verify")])).clone()),
            1 => ("use", (*r.pick(&[json!(""), json!("sig"), json!("enc"), json!(null)])).clone()),
            2 => ("alg", if r.flip() { json!(*r.pick(&["", "none", "EdDSA", "ES256", "RS256", "ES256K", "EdBlake2b"])) } else { json!(string(r)) }),
            3 => ("kid", json!(string(r))),
            4 => ("x5c", (*r.pick(&[json!([]), json!([""]), json!(["!"]), json!([b])])).clone()),
            5 => ("x5t", json!(b)),
            6 => ("x5u", json!(string(r))),
            7 => ("kty", if r.flip() { json!(*r.pick(&["", "OKP", "EC", "RSA", "oct", "okp", "none"])) } else { hostile_value(r) }),
            8 => ("crv", json!(*r.pick(&["", "Ed25519", "ed25519", "X25519", "P-256", "P-384", "P-521", "secp256k1", "Ed448"]))),
            9 => ("d", json!(b)),
            10 => (*r.pick(&["x", "y", "n", "e", "k"]), if r.flip() { json!(b) } else { hostile_value(r) }),
            11 => (*r.pick(&["p", "q", "dp", "dq", "qi"]), json!(b)),
            12 => ("oth", (*r.pick(&[json!([]), json!([{}]), json!([{"r": b, "d": b, "t": b}])])).clone()),
            _ => ("crv", Value::Null),
        };
        if let Some(o) = k.as_object_mut() {
            if v.is_null() && r.flip() {
                o.remove(name);
            } else {
                o.insert(name.into(), v);
            }
        }
    }
    k
}

pub fn hostile_jwt(r: &mut Rng) -> String {
    let mut s = evalx::scenario(r, evalx::ALL);
    if r.one_in(3) {
        forms::break_form(r, &mut s);
    }
    if s.proof.is_none() {
        s = honest(r);
    }
    if let (Some(p), true) = (s.proof.as_mut(), s.raw.is_none()) {
        for _ in 0..r.below(3) {
            let k = *r.pick(&["typ", "alg", "kid", "jwk", "jwk", "x5c", "x"]);
            if r.flip() {
                if k == "jwk" && r.flip() {
                    // the key itself, and no other
                    p.header.retain(|(k, _)| k != "kid" && k != "x5c");
                }
                let v = match k {
                    "kid" => json!(key_id(r)),
                    "jwk" if !r.one_in(4) => rich_jwk(r),
                    _ => hostile_value(r),
                };
                p.set_header(k, v);
            }
        }
        for _ in 0..r.below(3) {
            let k = *r.pick(&["iss", "aud", "sub", "iat", "nonce", "nbf", "exp", "x"]);
            if r.flip() {
                let v = match k {
                    "iat" | "nbf" | "exp" => match r.below(3) {
                        0 => number(r),
                        1 => json!(instant_text(r)),
                        _ => hostile_value(r),
                    },
                    _ => hostile_value(r),
                };
                p.set_body(k, v);
            }
        }
        // text-level damage inside the parts
        if r.one_in(3) {
            let h = mutated_text(r, &render_object(&p.header, 0));
            let b = mutated_text(r, &render_object(&p.body, 0));
            let mut t = format!("{}.{}", b64(h), b64(b));
            if let Some(g) = &p.sig {
                t = format!("{t}.{g}");
            }
            s.raw = Some(t);
        }
    }
    let t = s.jwt().unwrap_or_default();
    if r.one_in(4) {
        String::from_utf8_lossy(&mutated_text(r, &t)).into_owned()
    } else {
        t
    }
}

fn built_proof(r: &mut Rng) -> ProofJwt {
    let opt_instant = |r: &mut Rng| if r.flip() { Some(extreme_instant(r)) } else { None };
    ProofJwt {
        header: ProofJwtHeader {
            typ: if r.flip() { casing(r, "openid4vci-proof+jwt") } else { string(r) },
            alg: match r.below(4) {
                0 => ProofJwtAlgorithm::None,
                1 => ProofJwtAlgorithm::HS256,
                2 => ProofJwtAlgorithm::ECDHES,
                _ => ProofJwtAlgorithm::EdDSA,
            },
            additional_header: match r.below(5) {
                0 => None,
                1 => Some(ProofJwtAdditionalHeader::Jwk(match r.below(4) {
                    0 => evalx::jwk_value(r).to_string(),
                    1 => string(r),
                    _ => rich_jwk(r).to_string(),
                })),
                2 => Some(ProofJwtAdditionalHeader::X5c(string(r))),
                _ => Some(ProofJwtAdditionalHeader::KeyId(if r.flip() { key_id(r) } else { string(r) })),
            },
        },
        body: ProofJwtBody {
            issuer: if r.flip() { Some(string(r)) } else { None },
            audience: string(r),
            subject: if r.flip() { Some(string(r)) } else { None },
            issued_at: extreme_instant(r),
            nonce: string(r),
            not_before: opt_instant(r),
            expires_at: opt_instant(r),
        },
        signature: if r.flip() { Some(string(r)) } else { None },
    }
}

/// The keys of a DID document, replaced.
fn rich_keys(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.contains_key("publicKeyJwk") && !r.one_in(4) {
                o.insert("publicKeyJwk".into(), rich_jwk(r));
            }
            o.values_mut().for_each(|x| rich_keys(r, x));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| rich_keys(r, x)),
        _ => {}
    }
}

fn document(ctx: &mut Ctx, r: &mut Rng, v: Option<Value>) -> Option<Document> {
    let v = v.unwrap_or_else(|| {
        let d = did(r);
        let rest = did_url_rest(r);
        let mut v = did_document(r, &d, &rest, Some(r.clone().flip()));
        if r.one_in(3) {
            rich_keys(r, &mut v);
        }
        v
    });
    get::<Document>(ctx, r, "DID document", v)
}

fn hostile_clock(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(4) {
        0 => {
            ctx.class("extreme instant");
            clock::set(*r.pick(&[0, 1, 8_210_266_876_799, 8_210_266_876_798, 253_402_300_799, 253_402_300_800, 4_102_444_800]), r.range(0, 999_999_999));
        }
        1 => clock::set(r.range(0, 8_210_266_876_799), r.range(0, 999_999_999)),
        _ => evalx::set_clock(now(r)),
    }
}

fn evaluate(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = evalx::scenario(r, evalx::ALL);
    let gentle = r.one_in(4);
    if !gentle && r.flip() {
        s.raw = Some(hostile_jwt(r));
    }
    if r.one_in(4) {
        if let Some(d) = &mut s.doc {
            ctx.class("keys with unusual members");
            rich_keys(r, d);
        }
    }
    if r.one_in(8) {
        ctx.class("many entries");
        let n = 50 + r.below(400);
        let ids = unique_ids(r, n);
        let list: Vec<Value> = ids.into_iter().map(|i| supported(r, i)).collect();
        s.meta["credentials_supported"] = Value::Array(list);
    }
    let w = json!({"input": s.input()});
    let keep = |r: &mut Rng, v: Value| if gentle || r.flip() { v } else { mutated(r, v) };
    macro_rules! parsed {
        ($t:ty, $kind:literal, $v:expr) => {{
            let v = keep(r, $v);
            measure(ctx, &v, 0);
            let t = v.to_string();
            seen(ctx, &t);
            parse::<$t>(ctx, $kind, &json!(t), t.as_bytes())
        }};
    }
    let meta = parsed!(CredentialIssuerMetadata, "issuer metadata", s.meta.clone());
    let req = parsed!(CredentialRequest, "credential request", s.request());
    let offer = match s.offer.clone() {
        Some(v) => parsed!(CredentialOffer, "offer", v),
        None => None,
    };
    let doc = match s.doc.clone() {
        Some(v) => parsed!(Document, "DID document", v),
        None => None,
    };
    let mut opts = match s.opts.clone() {
        Some(v) => parsed!(EvaluateCredentialRequestOptions, "options", v),
        None => None,
    };
    if gentle {
        evalx::set_clock(s.now);
    } else {
        hostile_clock(ctx, r);
        if r.flip() {
            ctx.class("extreme instant");
            opts = Some(EvaluateCredentialRequestOptions {
                c_nonce: Some(CNonceOptions {
                    c_nonce_expires_in: *r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]),
                    expected_c_nonce: string(r),
                    c_nonce_created_at: extreme_instant(r),
                }),
                client_id: if r.flip() { Some(string(r)) } else { None },
            });
        }
    }
    if let Some(m) = &meta {
        valid(ctx, "issuer metadata", &w, m);
    }
    if let Some(o) = &offer {
        valid(ctx, "offer", &w, o);
        ctx.lib("url_encode", || w.clone(), || o.url_encode().map(|s| s.len()).map_err(|e| e.information()));
    }
    let Some(req) = req else { return };
    valid(ctx, "credential request", &w, &req);
    let meta = meta.unwrap_or_default();
    let as_meta = AuthorizationServerMetadata {};
    let res = ctx.lib("evaluate_credential_request", || w.clone(), || {
        CredentialIssuer::evaluate_credential_request(&meta, &req, offer.as_ref(), if s.as_meta { Some(&as_meta) } else { None }, doc.as_ref(), opts)
    });
    match &res {
        Some(Ok(v)) => {
            ctx.class("evaluation approved");
            ctx.lib("serialize response", || w.clone(), || serde_json::to_string(v).map(|s| s.len()));
        }
        Some(Err(e)) => {
            ctx.class("evaluation refused");
            described(ctx, &w, || e.information());
        }
        None => {}
    }
    match ctx.lib("pre_evaluate_credential_request", || w.clone(), || CredentialIssuer::pre_evaluate_credential_request(&req)) {
        Some(Ok(v)) => {
            ctx.class("pre-evaluation approved");
            ctx.lib("serialize response", || w.clone(), || serde_json::to_string(&v).map(|s| s.len()));
        }
        Some(Err(e)) => {
            ctx.class("pre-evaluation refused");
            described(ctx, &w, || e.information());
        }
        None => {}
    }
    respond(ctx, r, &req, &w);
}

fn respond(ctx: &mut Ctx, r: &mut Rng, req: &CredentialRequest, w: &Value) {
    let supplied = match r.below(4) {
        0 => None,
        1 => Some(CredentialOrAcceptanceToken::AcceptanceToken(string(r))),
        _ => {
            let v = profile(r);
            get::<CredentialFormatProfile>(ctx, r, "credential", v).map(CredentialOrAcceptanceToken::Credential)
        }
    };
    if let Some(CredentialOrAcceptanceToken::Credential(c)) = &supplied {
        ctx.lib("get_format_name", || w.clone(), || c.get_format_name());
        ctx.lib("encode credential", || w.clone(), || CredentialFormatProfileOrEncoded::try_from(c.clone()).is_ok());
    }
    let nonce = if r.flip() { Some(CNonce { c_nonce: string(r), c_nonce_expires_in: if r.flip() { Some(u32::MAX) } else { None } }) } else { None };
    let res = ctx.lib("create_credential_success_response", || w.clone(), || CredentialIssuer::create_credential_success_response(req, supplied, nonce));
    match res {
        Some(Ok((resp, at))) => {
            ctx.class("response created");
            surface(ctx, "credential response", w, &resp);
            ctx.lib("format instant", || w.clone(), || at.to_rfc3339());
        }
        Some(Err(e)) => {
            ctx.class("response not created");
            described(ctx, w, || e.information());
        }
        None => {}
    }
}

fn proofs(ctx: &mut Ctx, r: &mut Rng) {
    hostile_clock(ctx, r);
    let jwt = match r.below(6) {
        0 => {
            ctx.class("raw bytes");
            let n = r.below(200);
            String::from_utf8_lossy(&r.bytes(n)).into_owned()
        }
        1 => string(r),
        2 => format!("{}.{}.{}", string(r), string(r), string(r)),
        _ => hostile_jwt(r),
    };
    let w = json!(jwt);
    measure(ctx, &w, 0);
    seen(ctx, &jwt);
    let doc = if r.flip() { document(ctx, r, None) } else { None };
    match ctx.lib("ProofJwt::from_str", || w.clone(), || ProofJwt::from_str(&jwt)) {
        Some(Ok(p)) => {
            ctx.class("proof parsed");
            // a document that has the method named by the proof, if any
            let doc = match &p.header.additional_header {
                Some(ProofJwtAdditionalHeader::KeyId(k)) if r.flip() => {
                    let d: String = k.split(['#', '?', '/']).next().unwrap_or("").to_owned();
                    let rest = k[d.len()..].to_owned();
                    let v = did_document(r, &d, &rest, Some(r.clone().flip()));
                    document(ctx, r, Some(v))
                }
                _ => doc,
            };
            drive_proof(ctx, r, &p, doc.as_ref(), &w);
        }
        Some(Err(e)) => {
            ctx.class("proof refused");
            described(ctx, &w, || e.information());
        }
        None => {}
    }
    let req = CredentialRequest {
        format: build::profile(&profile(r)),
        proof: Some(CredentialRequestProof { proof_type: if r.flip() { casing(r, "jwt") } else { string(r) }, jwt }),
    };
    valid(ctx, "credential request", &w, &req);
    ctx.lib("pre_evaluate_credential_request", || w.clone(), || CredentialIssuer::pre_evaluate_credential_request(&req).map_err(|e| e.information()).is_ok());
    respond(ctx, r, &req, &w);
}

fn direct_proof(ctx: &mut Ctx, r: &mut Rng) {
    hostile_clock(ctx, r);
    let p = built_proof(r);
    ctx.class("proof built field by field");
    ctx.class("extreme instant");
    let w = json!({ "proof": guarded(|| format!("{p:?}")).unwrap_or_default() });
    seen(ctx, &w.to_string());
    let doc = match (&p.header.additional_header, r.below(3)) {
        (Some(ProofJwtAdditionalHeader::KeyId(k)), 0 | 1) => {
            let d: String = k.split(['#', '?', '/']).next().unwrap_or("").to_owned();
            let rest = k[d.len()..].to_owned();
            let mut v = did_document(r, &d, &rest, Some(r.clone().flip()));
            if r.one_in(3) {
                rich_keys(r, &mut v);
            }
            document(ctx, r, Some(v))
        }
        (_, 2) => None,
        _ => document(ctx, r, None),
    };
    drive_proof(ctx, r, &p, doc.as_ref(), &w);
}

fn token(ctx: &mut Ctx, r: &mut Rng) {
    hostile_clock(ctx, r);
    let (c, _, opts) = tokens::gen_case(r, r.clone().flip());
    let offer = match c.offer.clone() {
        Some(o) => get::<CredentialOffer>(ctx, r, "offer", o),
        None => None,
    };
    let pin = match r.below(4) {
        0 => Some(*r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 10_000_000_000_000_000_000, 99_999_999, 100_000_000, 9_999_999_999_999_999_999])),
        1 => Some(r.u64() >> r.below(64)),
        _ => c.pin,
    };
    let g = match &c.code {
        None => json!({"grant_type": "authorization_code"}),
        Some(code) => json!({"grant_type": PRE, "pre_authorized_code": code, "user_pin": pin}),
    };
    let o = json!({ "expected_user_pin": if r.flip() { json!(c.expected_pin) } else { json!(pin) } });
    let opts = if opts { get::<EvaluateAccessTokenRequestOptions>(ctx, r, "token options", o) } else { None };
    let req = get::<AccessTokenRequest>(ctx, r, "token request", json!({ "grant_type": g }));
    let w = tokens::witness(&c, &json!({ "pin": pin }));
    if let Some(req) = req {
        valid(ctx, "token request", &w, &req);
        match ctx.lib("evaluate_access_token_request", || w.clone(), || AccessToken::evaluate_access_token_request(&req, offer, opts)) {
            Some(x) => {
                ctx.lib("to_return_object", || w.clone(), || serde_json::to_string(&x.to_return_object().add_warning("w".to_owned())).map(|s| s.len()));
                match x {
                    Ok(()) => ctx.class("token granted"),
                    Err(e) => {
                        ctx.class("token refused");
                        described(ctx, &w, || e.information());
                    }
                }
            }
            None => {}
        }
    }
    let text = |r: &mut Rng| if r.flip() { Some(string(r)) } else { None };
    let int = |r: &mut Rng| if r.flip() { Some(*r.pick(&[0, 1, u32::MAX])) } else { None };
    let a = (string(r), int(r), text(r), text(r), int(r), int(r));
    if let Some(Ok((resp, at))) = ctx.lib("create_access_token_success_response", || w.clone(), || {
        AccessToken::create_access_token_success_response(a.0, AccessTokenType::Bearer, a.1, a.2, a.3, a.4, Some(true), a.5)
    }) {
        ctx.class("response created");
        surface(ctx, "token response", &w, &resp);
        ctx.lib("format instant", || w.clone(), || at.to_rfc3339());
    }
    let t = string(r);
    ctx.lib("token type", || json!(t), || AccessTokenType::try_from(t.clone()).map_err(|e| e.information()).is_ok());
}

fn offers(ctx: &mut Ctx, r: &mut Rng) {
    let meta = metadata(r);
    let creds: Vec<Value> = offered(r, &meta);
    let meta = match get::<CredentialIssuerMetadata>(ctx, r, "issuer metadata", meta) {
        Some(m) => m,
        None => return,
    };
    let w = json!({"metadata": format!("{meta:?}"), "credentials": creds});
    valid(ctx, "issuer metadata", &w, &meta);
    for s in &meta.credentials_supported {
        valid(ctx, "supported credential", &w, s);
    }
    let mut list: Vec<CredentialOrId> = creds.iter().map(build::credential_or_id).collect();
    if r.one_in(3) {
        list.push(CredentialOrId::CredentialId(string(r)));
    }
    if r.one_in(6) {
        let n = 200 + r.below(1000);
        ctx.class("many entries");
        if let Some(x) = list.first().cloned() {
            list.extend(std::iter::repeat(x).take(n));
        }
    }
    for c in list.iter().take(3) {
        if let Some(Err(e)) = ctx.lib("resolve", || w.clone(), || c.resolve(&meta)) {
            described(ctx, &w, || e.information());
        }
    }
    let code = string(r);
    let pre = if r.one_in(4) { None } else { build::pre_flow(&pre_flow(r, &code)) };
    let auth = if r.one_in(6) { build::auth_flow(&auth_flow(r)) } else { None };
    let endpoint = match r.below(4) {
        0 => None,
        1 => crate::issuer::endpoint(r),
        2 => Some((*r.pick(&["", "?", "??", "&", "?&", "#", "a?b#c", "é?", "?é&"])).to_owned()),
        _ => Some(string(r)),
    };
    let ids = CredentialOrIds::new(list);
    ctx.lib("resolve_all", || w.clone(), || ids.resolve_all(&meta).map(|v| v.len()).map_err(|e| e.information()).is_ok());
    match ctx.lib("create_offer", || w.clone(), || CredentialIssuer::create_offer(&meta, ids, &endpoint, &auth, &pre)) {
        Some(Ok((o, _))) => {
            ctx.class("offer created");
            surface(ctx, "offer", &w, &o);
            valid(ctx, "offer", &w, &o);
            ctx.lib("url_encode", || w.clone(), || o.url_encode().map(|s| s.len()).map_err(|e| e.information()));
        }
        Some(Err(e)) => {
            ctx.class("offer not created");
            described(ctx, &w, || e.information());
        }
        None => {}
    }
}

fn documents(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(12) {
        0 => {
            let v = metadata(r);
            get::<CredentialIssuerMetadata>(ctx, r, "issuer metadata", v);
        }
        1 => {
            let v = honest(r).request();
            get::<CredentialRequest>(ctx, r, "credential request", v);
        }
        2 => {
            let s = honest(r);
            get::<CredentialOffer>(ctx, r, "offer", s.offer.unwrap_or_default());
        }
        3 => {
            document(ctx, r, None);
        }
        4 => {
            let s = honest(r);
            get::<EvaluateCredentialRequestOptions>(ctx, r, "options", s.opts.unwrap_or_default());
        }
        5 => {
            let v = supported(r, None);
            if let Some(s) = get::<CredentialSupported>(ctx, r, "supported credential", v) {
                let w = json!(format!("{s:?}"));
                valid(ctx, "supported credential", &w, &s);
                valid(ctx, "credential", &w, &s.format);
            }
        }
        6 => {
            let v = profile(r);
            get::<CredentialFormatProfileOrEncoded>(ctx, r, "encoded credential", v);
        }
        7 => {
            let v = json!({"format": string(r), "credential": profile(r), "c_nonce": string(r), "c_nonce_expires_in": number(r)});
            get::<CredentialSuccessResponse>(ctx, r, "credential response", v);
        }
        8 => {
            let v = json!({"access_token": string(r), "token_type": "Bearer", "expires_in": 5, "interval": number(r)});
            get::<AccessTokenSuccessResponse>(ctx, r, "token response", v);
        }
        9 => {
            let s = honest(r);
            let p = s.proof.unwrap();
            let v = json!({"header": p.header.into_iter().collect::<Map<_, _>>(), "body": p.body.into_iter().collect::<Map<_, _>>(), "signature": p.sig});
            if let Some(p) = get::<ProofJwt>(ctx, r, "proof", v) {
                let w = json!(guarded(|| format!("{p:?}")).unwrap_or_default());
                hostile_clock(ctx, r);
                drive_proof(ctx, r, &p, None, &w);
            }
        }
        10 => {
            ctx.class("raw bytes");
            let n = r.below(300);
            let b = if r.flip() { r.bytes(n) } else { mutated_text(r, "{\"a\":[1,2,{}]}") };
            let w = json!(hex(&b));
            parse::<CredentialIssuerMetadata>(ctx, "issuer metadata", &w, &b);
            parse::<CredentialRequest>(ctx, "credential request", &w, &b);
            parse::<CredentialOffer>(ctx, "offer", &w, &b);
            parse::<Document>(ctx, "DID document", &w, &b);
            parse::<EvaluateCredentialRequestOptions>(ctx, "options", &w, &b);
            parse::<AccessTokenRequest>(ctx, "token request", &w, &b);
            parse::<GrantType>(ctx, "grant type", &w, &b);
            parse::<CredentialOrIds>(ctx, "credential list", &w, &b);
            parse::<ProofJwt>(ctx, "proof", &w, &b);
        }
        _ => {
            let v = hostile_value(r);
            get::<CredentialOrIds>(ctx, r, "credential list", v.clone());
            get::<AccessTokenErrorCode>(ctx, r, "token error code", v.clone());
            get::<CredentialIssuerErrorCode>(ctx, r, "credential error code", v.clone());
            get::<AccessTokenType>(ctx, r, "token type", v.clone());
            get::<ProofJwtAlgorithm>(ctx, r, "algorithm", v);
        }
    }
}

fn failures(ctx: &mut Ctx, r: &mut Rng) {
    let (a, b, c, d) = (errors::gen_validation(r).0, errors::gen_jwt(r).0, errors::gen_ci(r).0, errors::gen_at(r, 3).0);
    let w = json!(format!("{a:?} {b:?} {c:?} {d:?}"));
    seen(ctx, &w.to_string());
    ctx.lib("display", || w.clone(), || format!("{a} {b} {c} {d}").len());
    described(ctx, &w, || a.information());
    described(ctx, &w, || b.information());
    described(ctx, &w, || c.information());
    described(ctx, &w, || d.information());
    let info = ErrorInformation::new(r.u64() as u32, string(r), string(r), Some(hostile_value(r)));
    described(ctx, &w, || info.clone());
    let mut o: ReturnObject<Value, ErrorInformation, String> =
        ReturnObject { info: Some(hostile_value(r)), error: Some(info), warnings: if r.flip() { Some(vec![string(r)]) } else { None } };
    for _ in 0..r.below(30) {
        let x = string(r);
        match ctx.lib("add_warning", || w.clone(), || o.add_warning(x)) {
            Some(n) => o = n,
            None => return,
        }
    }
    surface(ctx, "return object", &w, &o);
    let text = |r: &mut Rng| if r.flip() { Some(string(r)) } else { None };
    let (x, y, z) = (text(r), text(r), if r.flip() { Some(hostile_value(r)) } else { None });
    let (x2, y2, z2) = (x.clone(), y.clone(), z.clone());
    if let Some(Ok(e)) =
        ctx.lib("create_access_token_error_response", || w.clone(), || AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, x, y, z))
    {
        surface(ctx, "token error response", &w, &e);
    }
    if let Some(Ok(e)) = ctx.lib("create_credential_error_response", || w.clone(), || {
        CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidRequest, x2, y2, z2)
    }) {
        surface(ctx, "credential error response", &w, &e);
    }
    ctx.class("response created");
}

pub fn case_hostile(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(14) {
        12 | 13 => {
            // a case of another property: not hostile, but over all that it varies
            let seed = ctx.seed;
            let b = crate::borrowed(r, seed);
            ctx.events += b.events;
            ctx.class("case of another property");
            ctx.decided(&(b.from, b.case), true);
            for p in b.panics {
                ctx.violation(format!("a call in a case of {} panicked: {p}", b.from), json!({"property": b.from, "seed of the case": b.case}));
            }
        }
        0..=2 => evaluate(ctx, r),
        3..=5 => proofs(ctx, r),
        6 => direct_proof(ctx, r),
        7 => token(ctx, r),
        8 => offers(ctx, r),
        9 | 10 => documents(ctx, r),
        _ => failures(ctx, r),
    }
    clock::real();
}

// ------------------------------------------------------------------ the child

/// `hostile <seed> <first> <stride> <end> <file>`: announces every case in the file before running it.
pub fn child(args: &[String]) -> i32 {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let (seed, first, stride, end) = (n(0), n(1), n(2).max(1), n(3));
    let path = args.get(4).cloned().unwrap_or_default();
    let Ok(file) = std::fs::File::create(&path) else { return 2 };
    // the stack of an ordinary spawned thread
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut ctx = Ctx::new("C22", seed, false);
        let mut i = first;
        while i < end {
            let _ = file.write_all_at(&i.to_le_bytes(), 0);
            ctx.index = i;
            let mut r = Rng::new(seed_for(seed, "C22", i));
            if let Err(p) = guarded(|| case_hostile(&mut ctx, &mut r)) {
                ctx.problem(format!("the harness panicked in case {i}: {p}"));
            }
            i += stride;
        }
        ctx
    });
    let Ok(Ok(ctx)) = t.map(|t| t.join()) else { return 2 };
    let hashes: Vec<u8> = ctx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{path}.h"), hashes);
    println!(
        "{}",
        json!({
            "evaluations": ctx.evaluations, "events": ctx.events, "classes": ctx.classes, "problems": ctx.problems,
            "violation_count": ctx.violation_count,
            "violations": ctx.violations.iter().map(|v| json!({"index": v.index, "what": v.what, "witness": v.witness})).collect::<Vec<_>>(),
        })
    );
    0
}

// ------------------------------------------------------------------ the supervisor

struct Worker {
    first: u64,
    file: std::path::PathBuf,
    child: Option<Child>,
    last: u64,
    since: Instant,
    deaths: u32,
}

fn spawn(seed: u64, first: u64, stride: u64, end: u64, file: &Path) -> std::io::Result<Child> {
    let _ = std::fs::remove_file(file);
    Command::new(std::env::current_exe()?)
        .args(["hostile", &seed.to_string(), &first.to_string(), &stride.to_string(), &end.to_string()])
        .arg(file)
        .stdout(std::fs::File::create(file.with_extension("out"))?)
        .stderr(Stdio::null())
        .spawn()
}

fn announced(file: &Path) -> Option<u64> {
    let b = std::fs::read(file).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

enum Alone {
    Fine,
    Died(String),
    Hung,
    Unknown,
}

/// One case in a process of its own. A time limit counts CPU time, not the load of the machine.
fn alone(seed: u64, i: u64, file: &Path) -> Alone {
    let Ok(mut c) = spawn(seed, i, 1, i + 1, file) else { return Alone::Unknown };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) if st.success() => return Alone::Fine,
            Ok(Some(st)) => {
                return match st.signal() {
                    Some(9 | 15) => Alone::Unknown,
                    Some(s) => Alone::Died(format!("signal {s}")),
                    None => Alone::Died(format!("{st}")),
                }
            }
            Ok(None) => {}
            Err(_) => return Alone::Unknown,
        }
        if cpu_seconds(c.id()) > 60.0 || t0.elapsed() > Duration::from_secs(240) {
            let busy = cpu_seconds(c.id()) > 60.0;
            let idle = cpu_seconds(c.id()) < 1.0;
            let _ = c.kill();
            let _ = c.wait();
            return if busy || idle { Alone::Hung } else { Alone::Unknown };
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn absorb(ctx: &mut Ctx, file: &Path) -> bool {
    let text = std::fs::read_to_string(file.with_extension("out")).unwrap_or_default();
    let Ok(v) = serde_json::from_str::<Value>(&text) else { return false };
    ctx.evaluations += v["evaluations"].as_u64().unwrap_or(0);
    ctx.events += v["events"].as_u64().unwrap_or(0);
    for (k, n) in v["classes"].as_object().into_iter().flatten() {
        *ctx.classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
    }
    for p in v["problems"].as_array().into_iter().flatten() {
        ctx.problem(p.as_str().unwrap_or("").to_owned());
    }
    let count = v["violation_count"].as_u64().unwrap_or(0);
    for x in v["violations"].as_array().into_iter().flatten() {
        ctx.index = x["index"].as_u64().unwrap_or(0);
        ctx.violation(x["what"].as_str().unwrap_or("").to_owned(), x["witness"].clone());
        ctx.violation_count -= 1;
    }
    ctx.violation_count += count;
    if let Ok(b) = std::fs::read(format!("{}.h", file.display())) {
        ctx.distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    true
}

fn supervise(ctx: &mut Ctx) {
    let total = if ctx.thorough { THOROUGH } else { QUICK };
    let limit = Duration::from_secs(if ctx.thorough { 600 } else { 300 });
    let dir = std::env::temp_dir().join(format!("vmon-{}", std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        ctx.problem("no scratch directory");
        return;
    }
    let started = Instant::now();
    let mut ws: Vec<Worker> = (0..8)
        .map(|k| {
            let file = dir.join(format!("w{k}"));
            Worker { first: k, child: spawn(ctx.seed, k, 8, total, &file).ok(), file, last: u64::MAX, since: Instant::now(), deaths: 0 }
        })
        .collect();
    if ws.iter().any(|w| w.child.is_none()) {
        ctx.problem("cannot start a child process");
    }
    let mut over = false;
    while ws.iter().any(|w| w.child.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in &mut ws {
            let Some(c) = w.child.as_mut() else { continue };
            let at = announced(&w.file);
            if at != Some(w.last) {
                w.last = at.unwrap_or(u64::MAX);
                w.since = Instant::now();
            }
            let status = c.try_wait().ok().flatten();
            let stuck = status.is_none() && w.since.elapsed() > Duration::from_secs(40);
            if status.is_none() && !stuck {
                if started.elapsed() > limit {
                    over = true;
                    let _ = c.kill();
                    let _ = c.wait();
                    w.child = None;
                }
                continue;
            }
            if status.map_or(false, |s| s.success()) {
                if !absorb(ctx, &w.file) {
                    ctx.problem("a child process gave no account of its run");
                }
                w.child = None;
                continue;
            }
            // died or stuck in the announced case
            let _ = c.kill();
            let _ = c.wait();
            w.child = None;
            let Some(i) = at else {
                ctx.problem("a child process died before its first case");
                continue;
            };
            w.deaths += 1;
            ctx.index = i;
            match alone(ctx.seed, i, &dir.join("alone")) {
                Alone::Died(how) => ctx.violation(format!("a call ends the process ({how}) in case {i}"), json!({ "case": i })),
                Alone::Hung => ctx.violation(format!("a call does not return in case {i}"), json!({ "case": i })),
                Alone::Fine => ctx.class("stall or death not reproduced"),
                Alone::Unknown => ctx.problem(format!("case {i} could not be run again alone")),
            }
            ctx.index = crate::EXTRA;
            // what the child had found before is lost with it: the rest is still run
            if w.deaths < 3 && ctx.violation_count == 0 {
                w.child = spawn(ctx.seed, i + 8, 8, total, &w.file).ok();
                w.since = Instant::now();
                w.first = i + 8;
            }
        }
        if ctx.violation_count > 0 && ws.iter().any(|w| w.deaths > 0) {
            for w in &mut ws {
                if let Some(mut c) = w.child.take() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
        }
    }
    if over {
        ctx.problem("the workload did not finish within its time limit");
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.sample(|| json!({"first case": 0, "last case": total - 1}));
}
