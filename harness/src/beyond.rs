//! Guarantees about what is *not* in an answer, and about what happens besides it:
//! C30 (rejections keep the issuer's secrets), C31 (memory), C32 (spelling of documents), C33 (no side effects).
use crate::api::{self, read, token_opts, token_request};
use crate::build;
use crate::clock;
use crate::core::{guarded, seed_for, Ctx, Rng};
use crate::evalx;
use crate::gen::*;
use crate::hostile;
use crate::issuer;
use crate::oracle::{self, TokenCase};
use crate::probe::{self, Memory};
use crate::stateless::{self, Op};
use crate::tokens;
use crate::wire;
use crate::Def;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions, GrantType};
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOfferGrants, CredentialOrId, CredentialOrIds,
    CredentialSuccessResponse, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::str::FromStr;

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C30",
            quick: 360_000,
            thorough: 1_500_000,
            case: case_secrets,
            extra: None,
            required: &[
                "code varied, rejected", "code varied, rejected with another condition", "expected PIN varied, rejected", "both varied", "variant shares a beginning with the request",
                "variant differs in length", "PIN of another length", "variant of a near code", "credential request: approved alike", "credential request: rejected alike",
                "rejected although the code was right", "a text of the request as code",
            ],
            rule: "one case = an evaluation and variants of it in which the issuer's secrets (the offer's code where the request's is wrong, the expected PIN where the presented one is wrong or absent) have other values of the same relation to the request; everything a caller can see of the rejections must be equal; likewise for a credential request and offers with other codes; non-trivial = distinct request and secrets",
        },
        Def {
            id: "C31",
            quick: 1_500,
            thorough: 40_000,
            case: case_memory,
            extra: Some(growth),
            required: &[
                "operation: evaluate credential request", "operation: pre-evaluate", "operation: evaluate token request", "operation: create offer", "operation: credential response",
                "operation: error information", "operation: proof", "operation: token response", "operation: error response", "operation: resolve", "answer: approved",
                "answer: rejected", "large input", "document read", "document refused", "extreme number", "peak measured", "distinct operations in the growth run", "arguments grown",
            ],
            rule: "one observation = one operation (answer dropped) with the bytes the thread took and gave back meanwhile; violated when repetitions keep memory each time, when a long run of distinct operations keeps memory in its second half, or when an operation holds more than a fixed multiple of its arguments' size at once; non-trivial = distinct operation and arguments",
        },
        Def {
            id: "C32",
            quick: 160_000,
            thorough: 900_000,
            case: case_spelling,
            extra: None,
            required: &[
                "issuer metadata: read", "issuer metadata: refused", "offer: read", "offer: refused", "credential request: read", "credential request: refused", "token request: read",
                "token request: refused", "format profile: read", "format profile: refused", "credential list: read", "token response: read", "credential response: read", "nonce: read",
                "nonce options: read", "credential options: read", "token options: read", "grants: read", "proof: read", "proof token: read", "proof token: refused", "escaped member name",
                "escaped text", "other member order", "white space", "from bytes", "from a stream", "from a parsed value",
            ],
            rule: "one case = a document (half of them damaged) read from its plain text, and from texts of the same JSON value with members in other orders, white space and escapes, as text, bytes, stream and parsed value; all readings must give equal values or all must refuse; non-trivial = distinct document",
        },
        Def {
            id: "C33",
            quick: 12_000,
            thorough: 60_000,
            case: case_effects,
            extra: Some(settings),
            required: &[
                "operation: evaluate credential request", "operation: pre-evaluate", "operation: evaluate token request", "operation: create offer", "operation: credential response",
                "operation: error information", "operation: proof", "operation: token response", "operation: error response", "operation: resolve", "answer: approved",
                "answer: rejected", "hostile input", "document read", "panic hook in place", "case of another property",
            ],
            rule: "one observation = one library call during which every use of libc for output, files, network, processes, signals, threads, waiting and process settings by the thread is recorded (hooks self-tested at start); any is a violation; non-trivial = distinct operation and arguments",
        },
    ]
}

fn js<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).map_or(Value::Null, |v| oracle::norm(&v))
}

// ------------------------------------------------------------------ C30

/// Everything a caller can see of the answer to a token request.
fn token_answer(c: &TokenCase, opts: bool) -> Option<Result<(bool, Value), String>> {
    let req = token_request(c.code.as_deref(), c.pin).ok()?;
    let offer: Option<CredentialOffer> = c.offer.as_ref().map(read).transpose().ok()?;
    let opts = token_opts(opts, c.expected_pin).ok()?;
    Some(guarded(move || {
        let x = AccessToken::evaluate_access_token_request(&req, offer, opts);
        let seen = match &x {
            Ok(()) => Value::Null,
            Err(e) => {
                let i = e.information();
                json!([e.to_string(), format!("{e:?}"), js(e), js(&i), i.to_string(), format!("{i:?}"), js(&x.to_return_object())])
            }
        };
        (x.is_ok(), seen)
    }))
}

/// Another secret that `tried` does not match either.
fn other_code(ctx: &mut Ctx, r: &mut Rng, tried: &str, secret: &str) -> String {
    for _ in 0..50 {
        let (c, class) = match r.below(7) {
            0 => (near(r, tried).0, "variant of a near code"),
            1 => (near(r, secret).0, "variant of a near secret"),
            2 => (format!("{tried}{}", token(r, 3)), "variant shares a beginning with the request"),
            3 => {
                let n = r.below(tried.chars().count() + 1);
                (tried.chars().take(n).collect(), "variant shares a beginning with the request")
            }
            4 => {
                let n = *r.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 64, 100, 300]);
                (token(r, n), "variant differs in length")
            }
            5 => (tried.chars().rev().collect(), "variant of a near code"),
            _ => (ident(r), "unrelated variant"),
        };
        if c != tried {
            ctx.class(class);
            return c;
        }
    }
    format!("{tried}x")
}

fn other_pin(ctx: &mut Ctx, r: &mut Rng, tried: Option<u64>, secret: u64) -> u64 {
    for _ in 0..50 {
        let t = tried.unwrap_or(1234);
        let p = match r.below(8) {
            0 => t.wrapping_add(1),
            1 => t.wrapping_sub(1),
            2 => t / 10,
            3 => t.wrapping_mul(10),
            4 => r.u64() >> r.below(64),
            5 => r.u64() % 10u64.pow(r.below(10) as u32),
            6 => *r.pick(&[0, 1, 99_999_999, 100_000_000, u64::MAX, 1 << 32]),
            _ => secret ^ (1 << r.below(27)),
        };
        if Some(p) != tried {
            if p.to_string().len() != secret.to_string().len() {
                ctx.class("PIN of another length");
            }
            return p;
        }
    }
    secret
}

fn case_secrets(ctx: &mut Ctx, r: &mut Rng) {
    if r.one_in(6) {
        return offer_secret(ctx, r);
    }
    let pins = r.flip();
    let (base, _, opts) = tokens::gen_case(r, pins);
    let Some(a) = token_answer(&base, opts) else {
        ctx.problem("a token request is not readable");
        return;
    };
    ctx.events += 1;
    let a = match a {
        Ok((false, a)) => a,
        Ok((true, _)) => return,
        Err(p) => return ctx.violation(format!("evaluation of a token request panicked: {p}"), tokens::witness(&base, &Value::Null)),
    };
    let code = base.offer.as_ref().and_then(|o| o["grants"][PRE]["pre-authorized_code"].as_str()).map(str::to_owned);
    let vary_code = match (&code, &base.code) {
        (Some(c), Some(t)) => c != t,
        // nothing was tried
        (Some(_), None) => true,
        _ => false,
    };
    let vary_pin = base.expected_pin.map_or(false, |e| base.pin != Some(e));
    if code.is_some() && !vary_code {
        ctx.class("rejected although the code was right");
    }
    if !vary_code && !vary_pin {
        return;
    }
    let kinds = oracle::analyse_token(&base).len();
    for _ in 0..3 {
        let mut v = base.clone();
        let both = r.flip();
        let c = vary_code && (both || !vary_pin || r.flip());
        if c {
            let tried = base.code.clone().unwrap_or_default();
            let x = other_code(ctx, r, &tried, code.as_deref().unwrap_or(""));
            if let Some(o) = v.offer.as_mut() {
                o["grants"][PRE]["pre-authorized_code"] = json!(x);
            }
            ctx.class(if kinds > 1 { "code varied, rejected with another condition" } else { "code varied, rejected" });
        }
        if vary_pin && (both || !c) {
            v.expected_pin = Some(other_pin(ctx, r, base.pin, base.expected_pin.unwrap_or(0)));
            ctx.class("expected PIN varied, rejected");
            if c {
                ctx.class("both varied");
            }
        }
        ctx.events += 1;
        let w = || json!({"evaluation": tokens::witness(&base, &a), "variant": tokens::witness(&v, &Value::Null)});
        match token_answer(&v, opts) {
            None => ctx.problem("a variant is not readable"),
            Some(Err(p)) => ctx.violation(format!("evaluation of a token request panicked: {p}"), w()),
            Some(Ok((true, _))) => ctx.violation("a token request is approved when the secret it does not match is another", w()),
            Some(Ok((false, b))) => {
                if a != b {
                    ctx.violation("a rejection tells more about the issuer's code or PIN than that it was not matched", json!({"first": w(), "then": b}));
                }
            }
        }
    }
    ctx.decided(&(&base.code, base.pin, base.expected_pin, &code), true);
    ctx.sample(|| tokens::witness(&base, &a));
}

/// A text of the request, its options or its proof.
fn own_text(r: &mut Rng, s: &Scn) -> String {
    let mut texts: Vec<String> = vec![];
    if let Some(p) = &s.proof {
        texts.extend(p.body.iter().chain(&p.header).filter_map(|(_, v)| v.as_str().map(str::to_owned)));
        texts.extend(p.sig.clone());
    }
    for o in s.opts.iter() {
        texts.extend([&o["client_id"], &o["c_nonce"]["expected_c_nonce"]].into_iter().filter_map(|v| v.as_str().map(str::to_owned)));
    }
    texts.extend(s.jwt());
    texts.extend(s.meta["credential_issuer"].as_str().map(str::to_owned));
    if texts.is_empty() {
        return text(r);
    }
    r.pick(&texts).clone()
}

/// The code, issuer state and PIN requirement in the offer are no matter of the credential request.
fn offer_secret(ctx: &mut Ctx, r: &mut Rng) {
    let s = if r.flip() { honest(r) } else { evalx::scenario(r, evalx::ALL) };
    let Some(o) = s.offer.clone().filter(|o| o["grants"][PRE].is_object() || o["grants"]["authorization_code"].is_object()) else { return };
    let answer = |offer: &Value| {
        let i = api::read_eval(&s.meta, &s.request(), Some(offer), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok()?;
        evalx::set_clock(s.now);
        let x = guarded(|| {
            CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone())
                .map(|v| js(&v))
                .map_err(|e| json!([e.to_string(), js(&e), js(&e.information())]))
        });
        clock::real();
        Some(x)
    };
    let Some(a) = answer(&o) else { return };
    ctx.events += 1;
    for _ in 0..2 {
        let mut v = o.clone();
        if v["grants"][PRE].is_object() {
            let tried = s.proof.as_ref().and_then(|p| p.body.iter().find(|(n, _)| n == "nonce")).and_then(|(_, v)| v.as_str()).unwrap_or("");
            let old = v["grants"][PRE]["pre-authorized_code"].as_str().unwrap_or("").to_owned();
            let c = if r.one_in(6) { tried.to_owned() } else { other_code(ctx, r, tried, &old) };
            v["grants"][PRE]["pre-authorized_code"] = json!(c);
            match r.below(4) {
                0 => v["grants"][PRE]["user_pin_required"] = json!(true),
                1 => v["grants"][PRE]["user_pin_required"] = json!(false),
                2 => {
                    v["grants"][PRE].as_object_mut().map(|m| m.remove("user_pin_required"));
                }
                _ => {}
            }
        }
        if v["grants"]["authorization_code"].is_object() && r.flip() {
            v["grants"]["authorization_code"] = auth_flow(r);
            if r.flip() {
                // or a text that is of importance elsewhere in the request
                v["grants"]["authorization_code"]["issuer_state"] = json!(own_text(r, &s));
            }
        }
        if v["grants"][PRE].is_object() && r.one_in(4) {
            v["grants"][PRE]["pre-authorized_code"] = json!(own_text(r, &s));
            ctx.class("a text of the request as code");
        }
        ctx.events += 1;
        let Some(b) = answer(&v) else { continue };
        ctx.class(match a {
            Ok(Ok(_)) => "credential request: approved alike",
            _ => "credential request: rejected alike",
        });
        if a != b {
            ctx.violation(
                "the answer to a credential request depends on the secrets in the offer's grants",
                json!({"input": s.input(), "other_offer": v, "first": format!("{a:?}"), "then": format!("{b:?}")}),
            );
        }
        ctx.decided(&(s.jwt(), v.to_string()), true);
    }
}

// ------------------------------------------------------------------ C31

/// The most that an operation may hold at once: for small arguments, and for every byte of them.
/// (On the unchanged library the most seen is about a third of this; parsed JSON takes up to 70 bytes
/// for a byte of text, several times over while enum forms are tried.)
const BASE: i64 = 512 << 10;
const FACTOR: i64 = 800;

fn judge_memory(ctx: &mut Ctx, label: &str, size: usize, m: Memory, w: &dyn Fn() -> Value) {
    ctx.class("peak measured");
    let ratio = m.peak / (size as i64 + 64);
    for k in [1, 3, 10, 30, 100, 300] {
        if m.peak > 65_536 && ratio >= k {
            ctx.class(&format!("peak of 64 KiB and more, at least {k} times the arguments"));
        }
    }
    if m.peak > BASE + FACTOR * size as i64 {
        ctx.violation(
            format!("{label} holds {} bytes at once (largest block {}) for arguments of {size} bytes", m.peak, m.largest),
            json!({"operation": label, "input": w()}),
        );
    }
}

/// Four times; what each kept.
fn repeated(ctx: &mut Ctx, label: &str, size: usize, w: &dyn Fn() -> Value, f: &dyn Fn() -> Option<bool>) {
    let mut kept = vec![];
    for k in 0..4 {
        let (x, m) = probe::memory(|| guarded(f));
        ctx.events += 1;
        match x {
            Err(p) => return ctx.violation(format!("{label} panicked: {p}"), w()),
            Ok(Some(true)) => ctx.class("answer: approved"),
            Ok(Some(false)) => ctx.class("answer: rejected"),
            Ok(None) => {}
        }
        kept.push(m.kept);
        if k == 1 {
            judge_memory(ctx, label, size, m, w);
        }
    }
    if kept[1..].iter().all(|k| *k > 0) {
        ctx.violation(format!("{label} keeps memory every time it is called ({kept:?} bytes)"), json!({"operation": label, "input": w()}));
    }
}

fn observe_op(ctx: &mut Ctx, o: &Op) {
    ctx.class(&format!("operation: {}", o.label));
    let text = o.witness.to_string();
    repeated(ctx, o.label, text.len(), &|| o.witness.clone(), &|| {
        let a = o.answer();
        Some(a.get("approved").is_some())
    });
    ctx.decided(&(o.label, text), true);
}

/// Read, described, written, dropped.
fn through<T: DeserializeOwned + Serialize + std::fmt::Debug>(text: &str) -> bool {
    match serde_json::from_str::<T>(text) {
        Ok(v) => {
            let _ = std::hint::black_box(serde_json::to_string(&v));
            let _ = std::hint::black_box(format!("{v:?}"));
            true
        }
        Err(e) => {
            let _ = std::hint::black_box(e.to_string());
            false
        }
    }
}

type Reader = fn(&str) -> bool;
const READERS: &[(&str, Reader)] = &[
    ("issuer metadata", through::<CredentialIssuerMetadata>),
    ("offer", through::<CredentialOffer>),
    ("credential request", through::<CredentialRequest>),
    ("token request", through::<AccessTokenRequest>),
    ("format profile", through::<CredentialFormatProfile>),
    ("credential list", through::<CredentialOrIds>),
    ("token response", through::<AccessTokenSuccessResponse>),
    ("credential response", through::<CredentialSuccessResponse>),
    ("nonce", through::<CNonce>),
    ("nonce options", through::<CNonceOptions>),
    ("credential options", through::<EvaluateCredentialRequestOptions>),
    ("token options", through::<EvaluateAccessTokenRequestOptions>),
    ("grants", through::<CredentialOfferGrants>),
    ("authorization flow", through::<AuthorizedCodeFlow>),
    ("pre-authorized flow", through::<PreAuthorizedCodeFlow>),
    ("credential or id", through::<CredentialOrId>),
    ("supported credential", through::<CredentialSupported>),
    ("grant type", through::<GrantType>),
    ("proof", through::<ProofJwt>),
    ("DID document", through::<Document>),
];

/// A document for every reader above.
pub fn document(r: &mut Rng, kind: &str) -> Value {
    match kind {
        "issuer metadata" => metadata(r),
        "offer" => wire::any_offer(r),
        "grants" => wire::any_offer(r)["grants"].clone(),
        "credential request" => {
            if r.flip() {
                honest(r).request()
            } else {
                profile(r)
            }
        }
        "token request" => json!({ "grant_type": document(r, "grant type") }),
        "grant type" => {
            if r.one_in(4) {
                json!({"grant_type": "authorization_code"})
            } else {
                let mut g = json!({"grant_type": PRE, "pre_authorized_code": text(r)});
                if r.flip() {
                    g["user_pin"] = json!(r.u64() >> r.below(64));
                }
                g
            }
        }
        "format profile" => profile(r),
        "credential list" => {
            let n = r.below(5);
            Value::Array((0..n).map(|_| if r.flip() { json!(text(r)) } else { profile(r) }).collect())
        }
        "credential or id" => {
            if r.flip() {
                json!(text(r))
            } else {
                profile(r)
            }
        }
        "token response" => wire::response_wire(r),
        "credential response" => {
            let mut v = json!({"format": *r.pick(&["jwt_vc_json", "ldp_vc", "mso_mdoc", "jwt_vc_json-ld"])});
            match r.below(4) {
                0 => v["acceptance_token"] = json!(text(r)),
                1 => v["credential"] = json!(b64(profile(r).to_string())),
                2 => v["credential"] = profile(r),
                _ => {}
            }
            if r.flip() {
                v["c_nonce"] = json!(text(r));
                v["c_nonce_expires_in"] = json!(lifetime(r));
            }
            v
        }
        "nonce" => json!({"c_nonce": text(r), "c_nonce_expires_in": lifetime(r)}),
        "nonce options" => wire::options_wire(r),
        "credential options" => json!({"c_nonce": wire::options_wire(r), "client_id": text(r)}),
        "token options" => json!({"expected_user_pin": if r.flip() { json!(r.u64() >> r.below(64)) } else { Value::Null }}),
        "authorization flow" => auth_flow(r),
        "pre-authorized flow" => {
            let c = text(r);
            pre_flow(r, &c)
        }
        "supported credential" => {
            let id = if r.flip() { Some(text(r)) } else { None };
            supported(r, id)
        }
        "proof" => {
            let s = honest(r);
            let jwt = s.jwt().unwrap_or_default();
            ProofJwt::from_str(&jwt).map_or(Value::Null, |p| js(&p))
        }
        _ => {
            let s = honest(r);
            s.doc.unwrap_or_default()
        }
    }
}

fn case_memory(ctx: &mut Ctx, r: &mut Rng) {
    if !clock::ENABLED {
        return;
    }
    match r.below(7) {
        6 => crate::scale::memory_growth(ctx, r),
        0 | 1 => {
            for o in stateless::pool(r, true) {
                observe_op(ctx, &o);
            }
        }
        2 => large(ctx, r),
        3 => {
            for _ in 0..20 {
                let Some(o) = extreme_op(r) else { continue };
                ctx.class("extreme number");
                let text = o.0.to_string();
                repeated(ctx, o.1, text.len(), &|| o.0.clone(), &|| Some((o.2)()));
                ctx.decided(&(o.1, text), true);
            }
        }
        _ => {
            for _ in 0..20 {
                let (kind, read) = *r.pick(READERS);
                let d = document(r, kind);
                let d = if r.flip() { hostile::mutated(r, d) } else { d };
                let text = d.to_string();
                let ok = read(&text);
                ctx.class(if ok { "document read" } else { "document refused" });
                repeated(ctx, &format!("reading {kind}"), text.len(), &|| d.clone(), &|| {
                    read(&text);
                    None
                });
                ctx.decided(&(kind, text), true);
            }
        }
    }
}

type Made = (Value, &'static str, Box<dyn Fn() -> bool>);

/// Operations whose arguments contain numbers at the end of their range.
fn extreme_op(r: &mut Rng) -> Option<Made> {
    let n32 = *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 30, 100_000_000, 1 << 24]);
    let n64 = *r.pick(&[u64::MAX, 1 << 63, 1 << 40, 1 << 32, 99_999_999, 10_000_000]);
    let t = ident(r);
    Some(match r.below(5) {
        0 => {
            let v = [Some(n32), Some(n32), Some(n32)];
            (
                json!([t, v]),
                "create_access_token_success_response",
                Box::new(move || {
                    let x = AccessToken::create_access_token_success_response(
                        t.clone(),
                        openid4vci::types::token_type::AccessTokenType::Bearer,
                        v[0],
                        None,
                        Some(t.clone()),
                        v[1],
                        Some(true),
                        v[2],
                    );
                    x.map_or(false, |(x, _)| x.validate().is_ok() && serde_json::to_string(&x).is_ok())
                }),
            )
        }
        1 => {
            let o = offer(&t, vec![json!("x")], None, Some(json!({"pre-authorized_code": t, "user_pin_required": true})));
            let expected = if r.flip() { n64 } else { r.u64() };
            let c = TokenCase { code: Some(t), pin: Some(n64), offer: Some(o), expected_pin: Some(expected) };
            (tokens::witness(&c, &Value::Null), "evaluate_access_token_request", Box::new(move || matches!(token_answer(&c, true), Some(Ok((true, _))))))
        }
        2 => {
            let req: CredentialRequest = read(&profile(r)).ok()?;
            let w = json!([js(&req), t, n32]);
            (
                w,
                "create_credential_success_response",
                Box::new(move || {
                    CredentialIssuer::create_credential_success_response(&req, None, Some(CNonce { c_nonce: t.clone(), c_nonce_expires_in: Some(n32) })).is_ok()
                }),
            )
        }
        _ => {
            let mut s = honest(r);
            if let Some(o) = s.opts.as_mut().filter(|o| o["c_nonce"].is_object()) {
                o["c_nonce"]["c_nonce_expires_in"] = json!(n32);
            }
            if let Some(p) = s.proof.as_mut() {
                p.set_body("exp", json!(r.range(200_000_000_000, 8_000_000_000_000)));
                p.set_body("iat", json!(r.range(1, 8_000_000_000_000)));
            }
            let i = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok()?;
            let now = s.now;
            (
                s.input(),
                "evaluate_credential_request",
                Box::new(move || {
                    evalx::set_clock(now);
                    let x = CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone());
                    clock::real();
                    x.is_ok()
                }),
            )
        }
    })
}

/// Arguments of tens and hundreds of kilobytes: what is held must not grow faster than they do.
fn large(ctx: &mut Ctx, r: &mut Rng) {
    ctx.class("large input");
    let n = *r.pick(&[2_000usize, 20_000, 60_000]);
    let long = token(r, n);
    match r.below(6) {
        0 => {
            // many credentials, offered and requested
            let k = 200 + r.below(600);
            let ids: Vec<Option<String>> = (0..k).map(|i| Some(format!("{}_{i}", token(r, 6)))).collect();
            let mut m = metadata(r);
            let small = json!({"format": "jwt_vc_json", "types": ["VerifiableCredential"]});
            m["credentials_supported"] = ids
                .iter()
                .map(|i| {
                    let mut c = small.clone();
                    c["id"] = json!(i);
                    c
                })
                .collect();
            let list: Vec<Value> = ids.iter().flatten().map(|i| json!(i)).collect();
            let meta = build::metadata(&m);
            let (text, pre) = (m.to_string(), build::pre_flow(&json!({"pre-authorized_code": "x"})));
            let creds = Value::Array(list);
            repeated(ctx, "create_offer", text.len() + creds.to_string().len(), &|| json!({"credentials": k}), &|| {
                Some(CredentialIssuer::create_offer(&meta, build::credential_or_ids(&creds), &None, &None, &pre).is_ok())
            });
            repeated(ctx, "validate issuer metadata", text.len(), &|| json!({"credentials": k}), &|| Some(meta.validate().is_ok()));
            repeated(ctx, "reading issuer metadata", text.len(), &|| json!({"credentials": k}), &|| Some(through::<CredentialIssuerMetadata>(&text)));
        }
        1 => {
            // a long proof
            let mut s = honest(r);
            let part = *r.pick(&["nonce", "aud", "iss", "x", "sub", "kid", "jwk", "sig"]);
            if let Some(p) = s.proof.as_mut() {
                match part {
                    "sig" => p.sig = Some(long.clone()),
                    "kid" => p.set_header("kid", json!(format!("did:x:y#{long}"))),
                    "jwk" => {
                        p.unset_header("kid");
                        p.set_header("jwk", json!({"kty": "OKP", "x": long}));
                    }
                    k => p.set_body(k, json!(long)),
                }
            }
            let Some(i) = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok() else { return };
            let (size, jwt) = (s.input().to_string().len(), s.jwt().unwrap_or_default());
            let w = || json!({"long": part, "bytes": n});
            repeated(ctx, "evaluate_credential_request", size, &w, &|| {
                let x = CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone());
                Some(x.map_or_else(|e| e.information().code == 0, |v| serde_json::to_string(&v).is_ok()))
            });
            repeated(ctx, "pre_evaluate_credential_request", size, &w, &|| {
                Some(CredentialIssuer::pre_evaluate_credential_request(&i.request).map_or_else(|e| e.information().code == 0, |_| true))
            });
            repeated(ctx, "reading a proof token", jwt.len(), &w, &|| Some(ProofJwt::from_str(&jwt).is_ok()));
        }
        2 => {
            // a DID document with many methods
            let s = honest(r);
            let Some(mut d) = s.doc.clone() else { return };
            let one = json!({"id": "did:x:y#k", "type": "Ed25519VerificationKey2018", "controller": "did:x:y", "publicKeyBase58": "H3C2AVvLMv6gmMNam3uVAjZpfkcJCwDwnZn6z3wXmqPV"});
            let k = 50 + r.below(400);
            d["verificationMethod"] = (0..k)
                .map(|i| {
                    let mut m = one.clone();
                    m["id"] = json!(format!("did:x:y#k{i}"));
                    m
                })
                .collect();
            let Some(i) = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, Some(&d), s.opts.as_ref()).ok() else { return };
            let size = d.to_string().len() + s.input().to_string().len();
            repeated(ctx, "evaluate_credential_request", size, &|| json!({"methods": k}), &|| {
                let x = CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone());
                Some(x.map_or_else(|e| e.information().code == 0, |v| serde_json::to_string(&v).is_ok()))
            });
        }
        3 => {
            // long values in an error
            use openid4vci::jwt::error::JwtError;
            let e = JwtError::NonceMismatch { expected_nonce: Some(long.clone()), actual_nonce: long.clone() };
            repeated(ctx, "information", 2 * n, &|| json!({"error": "NonceMismatch", "bytes": n}), &|| {
                let i = e.information();
                Some(i.to_string().is_empty())
            });
        }
        4 => {
            // long codes
            let o = offer(&long, vec![json!(long)], None, Some(json!({"pre-authorized_code": long})));
            let code = if r.flip() { long.clone() } else { near(r, &long).0 };
            let c = TokenCase { code: Some(code), pin: None, offer: Some(o), expected_pin: None };
            repeated(ctx, "evaluate_access_token_request", 4 * n, &|| json!({ "bytes": n }), &|| Some(matches!(token_answer(&c, false), Some(Ok((true, _))))));
        }
        _ => {
            let (kind, read) = *r.pick(READERS);
            let mut d = document(r, kind);
            lengthen(r, &mut d, &long);
            let text = d.to_string();
            repeated(ctx, &format!("reading {kind}"), text.len(), &|| json!({"bytes": n, "kind": kind}), &|| Some(read(&text)));
        }
    }
    ctx.decided(&long, true);
}

fn lengthen(r: &mut Rng, v: &mut Value, long: &str) {
    match v {
        Value::Object(o) => {
            for (_, x) in o.iter_mut() {
                lengthen(r, x, long);
            }
            if r.one_in(3) {
                o.insert(token(r, 4), json!(long));
            }
        }
        Value::Array(a) => {
            a.iter_mut().for_each(|x| lengthen(r, x, long));
            if r.one_in(3) && a.first().map_or(false, Value::is_string) {
                let k = long.len() / 20;
                a.extend((0..k).map(|i| json!(format!("t{i}"))));
            }
        }
        Value::String(s) if r.one_in(6) => s.push_str(long),
        _ => {}
    }
}

/// A long run of distinct operations: nothing may be accumulated.
fn growth(ctx: &mut Ctx) {
    if !clock::ENABLED {
        return;
    }
    let pools: u64 = if ctx.thorough { 12_000 } else { 1_200 };
    let seed = ctx.seed;
    // what was kept in each eighth, by operation, and the number of operations
    type Kept = std::collections::BTreeMap<String, ([i64; 8], u64)>;
    let all: Vec<Kept> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut kept: Kept = Kept::new();
                        for p in (t..pools).step_by(8) {
                            let mut r = Rng::new(seed_for(seed, "C31-growth", p));
                            let mut add = |label: String, k: i64| {
                                let e = kept.entry(label).or_default();
                                e.0[(p * 8 / pools) as usize] += k;
                                e.1 += 1;
                            };
                            for o in stateless::pool(&mut r, true) {
                                let (x, m) = probe::memory(|| guarded(|| drop(o.answer())));
                                if x.is_ok() {
                                    add(o.label.to_owned(), m.kept);
                                }
                            }
                            for (kind, read) in READERS {
                                let d = document(&mut r, kind);
                                let text = if r.one_in(4) { hostile::mutated(&mut r, d) } else { d }.to_string();
                                let (x, m) = probe::memory(|| guarded(|| read(&text)));
                                if x.is_ok() {
                                    add(format!("reading {kind}"), m.kept);
                                }
                            }
                        }
                        kept
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut total = Kept::new();
    for (k, v) in all.into_iter().flatten() {
        for key in [k, "all operations".to_owned()] {
            let e = total.entry(key).or_default();
            for (x, y) in e.0.iter_mut().zip(v.0) {
                *x += y;
            }
            e.1 += v.1;
        }
    }
    for (k, (parts, n)) in &total {
        if k != "all operations" {
            ctx.events += n;
            *ctx.classes.entry("distinct operations in the growth run".into()).or_insert(0) += n;
        }
        // what is set up once is set up early in the run
        let late: i64 = parts[4..].iter().sum();
        if late > 65_536 || (parts[2..].iter().all(|p| *p > 0) && late > 1024) {
            ctx.violation(format!("{k}: memory accumulates, {parts:?} bytes in the eighths of {n} distinct calls"), json!({"operation": k, "eighths": parts, "calls": n}));
        }
    }
    ctx.sample(|| json!({"kept in the eighths of the growth run": total.get("all operations")}));
}

// ------------------------------------------------------------------ C32

#[derive(Default)]
struct Spelled {
    text: String,
    escaped_name: bool,
    escaped_text: bool,
    order: bool,
    space: bool,
}

struct Style {
    order: bool,
    space: usize,
    escape: usize,
}

fn spell_str(r: &mut Rng, s: &str, st: &Style, out: &mut String) -> bool {
    out.push('"');
    let mut escaped = false;
    for c in s.chars() {
        let force = st.escape > 0 && r.one_in(st.escape);
        match c {
            '"' | '\\' if !force => {
                out.push('\\');
                out.push(c);
            }
            '/' if force && r.flip() => {
                escaped = true;
                out.push_str("\\/");
            }
            '\n' if !force => out.push_str("\\n"),
            '\t' if !force => out.push_str("\\t"),
            '\u{8}' if r.flip() => out.push_str("\\b"),
            '\u{c}' if r.flip() => out.push_str("\\f"),
            c if force || (c as u32) < 0x20 => {
                escaped = escaped || force;
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let h = if r.flip() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                    out.push_str(&h);
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
    escaped
}

fn blank(r: &mut Rng, st: &Style, out: &mut Spelled) {
    while st.space > 0 && r.one_in(st.space) {
        out.text.push(*r.pick(&[' ', '\n', '\t', '\r']));
        out.space = true;
    }
}

/// The same JSON value in other words.
fn spell(r: &mut Rng, v: &Value, st: &Style, out: &mut Spelled) {
    blank(r, st, out);
    match v {
        Value::Object(o) => {
            let mut m: Vec<(&String, &Value)> = o.iter().collect();
            if st.order && m.len() > 1 {
                r.shuffle(&mut m);
                out.order = true;
            }
            out.text.push('{');
            blank(r, st, out);
            for (i, (k, x)) in m.into_iter().enumerate() {
                if i > 0 {
                    out.text.push(',');
                    blank(r, st, out);
                }
                if spell_str(r, k, st, &mut out.text) {
                    out.escaped_name = true;
                }
                blank(r, st, out);
                out.text.push(':');
                spell(r, x, st, out);
            }
            out.text.push('}');
        }
        Value::Array(a) => {
            out.text.push('[');
            blank(r, st, out);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.text.push(',');
                }
                spell(r, x, st, out);
            }
            out.text.push(']');
        }
        Value::String(s) => {
            if spell_str(r, s, st, &mut out.text) {
                out.escaped_text = true;
            }
        }
        v => out.text.push_str(&v.to_string()),
    }
    blank(r, st, out);
}

fn style(r: &mut Rng) -> Style {
    Style { order: !r.one_in(4), space: *r.pick(&[0, 2, 4, 9]), escape: *r.pick(&[0, 1, 2, 5, 20]) }
}

/// Numbers that every way of reading takes for the same (binary fractions), no nesting beyond the parser's limit.
fn plain(v: &mut Value, depth: usize) -> bool {
    match v {
        Value::Number(n) => {
            if n.is_f64() {
                let f = n.as_f64().unwrap_or(0.5);
                if !(f.abs() < 1e9 && (f * 8.0).fract() == 0.0) {
                    *v = json!(0.5);
                }
            }
            true
        }
        Value::Array(a) => depth < 60 && a.iter_mut().all(|x| plain(x, depth + 1)),
        Value::Object(o) => depth < 60 && o.values_mut().all(|x| plain(x, depth + 1)),
        _ => true,
    }
}

struct Trickle<'a>(&'a [u8], usize);
impl std::io::Read for Trickle<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

type Reading = Result<Result<Value, String>, String>;

fn seen<T: Serialize, E: ToString>(x: Result<T, E>) -> Result<Value, String> {
    x.map(|v| js(&v)).map_err(|e| e.to_string())
}

fn readings<T: DeserializeOwned + Serialize>(r: &mut Rng, v: &Value, ctx: &mut Ctx) -> Vec<(&'static str, String, Reading)> {
    let base = v.to_string();
    let mut out = vec![("plain text", base.clone(), guarded(|| seen(serde_json::from_str::<T>(&base))))];
    for k in 0..5 {
        let mut s = Spelled::default();
        let st = style(r);
        spell(r, v, &st, &mut s);
        for (on, class) in
            [(s.escaped_name, "escaped member name"), (s.escaped_text, "escaped text"), (s.order, "other member order"), (s.space, "white space")]
        {
            if on {
                ctx.class(class);
            }
        }
        let t = s.text;
        let (how, x) = match k {
            0 | 1 => ("other text", guarded(|| seen(serde_json::from_str::<T>(&t)))),
            2 => {
                ctx.class("from bytes");
                ("bytes", guarded(|| seen(serde_json::from_slice::<T>(t.as_bytes()))))
            }
            3 => {
                ctx.class("from a stream");
                let n = *r.pick(&[1usize, 2, 7, 64, 4096]);
                ("a stream", guarded(|| seen(serde_json::from_reader::<_, T>(Trickle(t.as_bytes(), n)))))
            }
            _ => {
                ctx.class("from a parsed value");
                let v: Value = serde_json::from_str(&t).unwrap_or_default();
                ("a parsed value", guarded(|| seen(serde_json::from_value::<T>(v))))
            }
        };
        out.push((how, t, x));
    }
    out
}

fn compare(ctx: &mut Ctx, kind: &str, all: Vec<(&'static str, String, Reading)>) {
    ctx.events += all.len() as u64;
    let first = &all[0];
    ctx.class(&format!("{kind}: {}", if matches!(first.2, Ok(Ok(_))) { "read" } else { "refused" }));
    for x in &all[1..] {
        let alike = match (&first.2, &x.2) {
            (Ok(Ok(a)), Ok(Ok(b))) => a == b,
            (Ok(Err(_)), Ok(Err(_))) => true,
            _ => false,
        };
        if !alike {
            ctx.violation(
                format!("{kind} is read differently from {} of the same JSON value", x.0),
                json!({"plain": first.1, "plain_reading": format!("{:?}", first.2), "other": x.1, "other_reading": format!("{:?}", x.2)}),
            );
        }
    }
    ctx.decided(&first.1, true);
    ctx.sample(|| json!({"kind": kind, "one": all[0].1, "other": all[1].1}));
}

fn case_spelling(ctx: &mut Ctx, r: &mut Rng) {
    if r.one_in(6) {
        return token_spelling(ctx, r);
    }
    let i = r.below(READERS.len() - 1);
    let kind = READERS[i].0;
    let d = document(r, kind);
    let mut d = if r.one_in(3) { hostile::mutated(r, d) } else { d };
    if !plain(&mut d, 0) {
        return;
    }
    let all = match kind {
        "issuer metadata" => readings::<CredentialIssuerMetadata>(r, &d, ctx),
        "offer" => readings::<CredentialOffer>(r, &d, ctx),
        "credential request" => readings::<CredentialRequest>(r, &d, ctx),
        "token request" => readings::<AccessTokenRequest>(r, &d, ctx),
        "format profile" => readings::<CredentialFormatProfile>(r, &d, ctx),
        "credential list" => readings::<CredentialOrIds>(r, &d, ctx),
        "token response" => readings::<AccessTokenSuccessResponse>(r, &d, ctx),
        "credential response" => readings::<CredentialSuccessResponse>(r, &d, ctx),
        "nonce" => readings::<CNonce>(r, &d, ctx),
        "nonce options" => readings::<CNonceOptions>(r, &d, ctx),
        "credential options" => readings::<EvaluateCredentialRequestOptions>(r, &d, ctx),
        "token options" => readings::<EvaluateAccessTokenRequestOptions>(r, &d, ctx),
        "grants" => readings::<CredentialOfferGrants>(r, &d, ctx),
        "authorization flow" => readings::<AuthorizedCodeFlow>(r, &d, ctx),
        "pre-authorized flow" => readings::<PreAuthorizedCodeFlow>(r, &d, ctx),
        "credential or id" => readings::<CredentialOrId>(r, &d, ctx),
        "supported credential" => readings::<CredentialSupported>(r, &d, ctx),
        "grant type" => readings::<GrantType>(r, &d, ctx),
        _ => readings::<ProofJwt>(r, &d, ctx),
    };
    compare(ctx, kind, all);
}

/// A proof token whose header and claims are written in other words.
fn token_spelling(ctx: &mut Ctx, r: &mut Rng) {
    let s = if r.flip() { honest(r) } else { evalx::scenario(r, evalx::ALL) };
    let Some(p) = s.proof.clone() else { return };
    let mut parts: Vec<Value> = [&p.header, &p.body].iter().map(|m| Value::Object(m.iter().cloned().collect::<Map<_, _>>())).collect();
    if r.one_in(3) {
        let k = r.below(2);
        parts[k] = hostile::mutated(r, parts[k].clone());
    }
    if !parts.iter_mut().all(|v| plain(v, 0)) {
        return;
    }
    let make = |a: String, b: String| {
        let t = format!("{}.{}", b64(a), b64(b));
        match &p.sig {
            Some(g) => format!("{t}.{g}"),
            None => t,
        }
    };
    // (a jwk is kept as the text of a JSON value, so it is compared as that value)
    let read = |t: &str| -> Reading {
        guarded(|| {
            ProofJwt::from_str(t)
                .map(|p| {
                    let mut v = js(&p);
                    let jwk = v["header"]["jwk"].as_str().and_then(|s| serde_json::from_str::<Value>(s).ok());
                    if let Some(k) = jwk {
                        v["header"]["jwk"] = oracle::norm(&k);
                    }
                    let did = p.extract_did().map_err(|e| e.to_string());
                    json!([v, format!("{did:?}"), p.validate().is_ok(), p.check_nonce(Some("n".into())).is_ok(), p.check_aud("a").is_ok()])
                })
                .map_err(|e| e.to_string())
        })
    };
    let plain_text = make(parts[0].to_string(), parts[1].to_string());
    let mut all = vec![("plain text", plain_text.clone(), read(&plain_text))];
    for _ in 0..4 {
        let mut ab = vec![];
        for v in &parts {
            let mut s = Spelled::default();
            let st = style(r);
        spell(r, v, &st, &mut s);
            ab.push(s.text);
        }
        let b = ab.pop().unwrap_or_default();
        let t = make(ab.pop().unwrap_or_default(), b);
        let x = read(&t);
        all.push(("another token", t, x));
    }
    compare(ctx, "proof token", all);
}

// ------------------------------------------------------------------ C33

fn judge_effects(ctx: &mut Ctx, label: &str, w: &dyn Fn() -> Value) {
    let seen = probe::effects();
    if !seen.is_empty() {
        ctx.violation(format!("{label} has effects besides its answer: it {}", seen.join(", ")), json!({"operation": label, "input": w()}));
    }
}

fn case_effects(ctx: &mut Ctx, r: &mut Rng) {
    if !clock::ENABLED {
        return;
    }
    probe::effects();
    if r.one_in(3) {
        for _ in 0..5 {
            let seed = ctx.seed;
            let b = crate::borrowed(r, seed);
            ctx.events += b.events;
            ctx.class("case of another property");
            judge_effects(ctx, &format!("a call in a case of {}", b.from), &|| json!({"property": b.from, "seed of the case": b.case}));
            ctx.decided(&(b.from, b.case), true);
        }
    } else if r.one_in(3) {
        for o in stateless::pool(r, true) {
            let a = probe::watch(|| {
                let a = o.answer();
                // what was printed without a line's end
                let _ = std::io::Write::flush(&mut std::io::stdout());
                a
            });
            ctx.events += 1;
            ctx.class(&format!("operation: {}", o.label));
            ctx.class(if a.get("approved").is_some() { "answer: approved" } else { "answer: rejected" });
            judge_effects(ctx, o.label, &|| o.witness.clone());
            ctx.decided(&(o.label, o.witness.to_string()), true);
        }
    } else if r.flip() {
        for _ in 0..10 {
            let (kind, read) = *r.pick(READERS);
            let d = document(r, kind);
            let d = if r.flip() { hostile::mutated(r, d) } else { d };
            let text = d.to_string();
            ctx.events += 1;
            let _ = probe::watch(|| guarded(|| read(&text)));
            ctx.class("document read");
            judge_effects(ctx, &format!("reading {kind}"), &|| d.clone());
            ctx.decided(&(kind, text), true);
        }
    } else {
        ctx.class("hostile input");
        let start = r.clone();
        hostile::case_hostile(ctx, r);
        let mut s = start;
        judge_effects(ctx, "a call with hostile input", &|| json!({ "case_seed": s.clone().u64() }));
        s.u64();
    }
}

/// What the library leaves behind in the process.
fn settings(ctx: &mut Ctx) {
    // (the harness notes the text of panics by its own hook)
    let e = guarded(|| {
        if std::hint::black_box(true) {
            panic!("is the hook in place");
        }
    });
    ctx.class("panic hook in place");
    if !e.as_ref().err().map_or(false, |t| t.contains("is the hook in place")) {
        ctx.violation("the library replaced the panic hook of the process", json!(format!("{e:?}")));
    }
    let _ = issuer::percent_decode("");
}
