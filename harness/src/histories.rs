//! C27: histories of several issuers, honest wallets and an adversary, run through the JSON forms.
//! The monitor keeps its own account of what was handed out, when and to whom (never what the
//! library reported), and judges every grant and every approval by it.
use crate::api::{self, Outcome};
use crate::build;
use crate::clock;
use crate::core::{guarded, Ctx, Rng};
use crate::evalx;
use crate::gen::*;
use crate::issuer;
use crate::oracle::{self, Cond, TokenCase};
use crate::Def;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C27",
        quick: 24_000,
        thorough: 200_000,
        case: history,
        extra: None,
        required: &[
            "offer read by the wallet", "token granted to the honest wallet", "credential approved for the honest wallet", "second credential in a session",
            "fifth message in a session", "nonce rotated", "three issuers", "interleaved sessions", "pin session", "client session",
            "token: code of another session refused", "token: near code refused", "token: near pin refused", "token: pin of another session refused",
            "token: missing pin refused", "token: unexpected pin refused", "token: authorization code grant refused", "token: replay granted to the same offer",
            "credential: replay refused", "credential: replay of a current nonce approved", "credential: other session refused", "credential: other issuer refused",
            "credential: late refused", "credential: delayed but in time approved", "credential: near nonce refused", "credential: near issuer refused",
            "credential: other client refused", "credential: rotated key refused", "credential: proof expired refused", "credential: proof not yet valid refused",
            "credential: proof not typed for issuance refused", "credential: without proof refused", "at the last instant approved", "one nanosecond late refused",
            "credential delivered", "error delivered",
        ],
        rule: "one history = up to three issuers (with near-identical identifiers), up to six sessions (with near-identical codes, PINs and nonces), about 40 events: honest steps, clock advances to and past nonce deadlines, key rotations, delayed, replayed, redirected and tampered messages; every message travels as JSON; the monitor's own account of codes, PINs, nonces and instants decides each grant and approval, both ways; non-trivial = distinct (phase, message kind, relation, violated conditions, deadline bucket)",
    }]
}

#[derive(Clone)]
struct Nonce {
    value: String,
    life: u32,
    /// when the response was created, by the monitor's clock
    created: i128,
    /// what the library said about it
    created_lib: Value,
}

#[derive(Clone)]
struct Session {
    issuer: usize,
    code: String,
    pin: Option<u64>,
    client: Option<String>,
    did: String,
    rest: String,
    /// the offer the monitor knows was made
    offer: Value,
    /// the offer as the issuer stored it
    stored: String,
    /// what the wallet read
    wallet_code: Option<String>,
    wallet_nonce: Option<(String, u64)>,
    nonce: Option<Nonce>,
    issued: usize,
    messages: usize,
}

#[derive(Clone)]
enum Msg {
    Token { code: Option<String>, pin: Option<u64> },
    Credential { request: Value },
}

#[derive(Clone)]
struct Sent {
    from: usize,
    msg: Msg,
    delivered: usize,
}

struct World {
    issuers: Vec<Value>,
    sessions: Vec<Session>,
    registry: BTreeMap<String, Value>,
    log: Vec<Sent>,
    trace: Vec<Value>,
    now: i128,
}

fn pin(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 9, 10, 99_999_999, 99_999_998, 10_000_000, 9_999_999, 123_456]),
        1 => r.below(100) as u64,
        _ => r.below(100_000_000) as u64,
    }
}

fn near_pin(r: &mut Rng, p: u64) -> u64 {
    match r.below(8) {
        0 => p + 1,
        1 => p.saturating_sub(1),
        2 => p / 10,
        3 => p.saturating_mul(10).min(999_999_999),
        4 => p + 100_000_000,
        5 => p ^ 1,
        6 => p + (1 << 32) % 100_000_000,
        _ => pin(r),
    }
}

/// an instant for the next event: mostly soon, sometimes exactly around a deadline
fn advance(r: &mut Rng, w: &World) -> i128 {
    let open: Vec<i128> = w.sessions.iter().filter_map(|s| s.nonce.as_ref().map(|n| n.created + i128::from(n.life) * S)).filter(|d| *d >= w.now - 2 * S).collect();
    match r.below(12) {
        0 | 1 if !open.is_empty() => {
            let d = *r.pick(&open);
            let off = *r.pick(&[0, 0, -1, 1, -S, S, -500_000_000, 500_000_000, 60 * S]);
            (d + off).max(w.now)
        }
        2 => w.now + i128::from(r.range(0, 4_000)) * S + i128::from(r.range(0, 999_999_999)),
        3..=5 => w.now,
        _ => w.now + i128::from(r.range(0, 3_000_000_000)),
    }
}

fn proof(r: &mut Rng, issuer: &str, s: &Session, nonce: &str, now: i128) -> Proof {
    let iat = now - i128::from(r.range(0, 30)) * S;
    let mut header = vec![
        ("typ".to_owned(), json!(casing(r, "openid4vci-proof+jwt"))),
        ("alg".to_owned(), json!(*r.pick(&["EdDSA", "EdDSA", "ES256", "ES256K"]))),
        ("kid".to_owned(), json!(format!("{}{}", s.did, s.rest))),
    ];
    let mut body = vec![("aud".to_owned(), json!(issuer)), ("iat".to_owned(), claim_time(r, iat)), ("nonce".to_owned(), json!(nonce))];
    if let Some(c) = &s.client {
        body.push(("iss".into(), json!(c)));
    } else if r.one_in(4) {
        body.push(("iss".into(), json!(s.did)));
    }
    if r.one_in(3) {
        let d = i128::from(r.range(1, 120)) * S;
        body.push(("exp".into(), json!(rfc3339(r, now + d))));
    }
    if r.one_in(4) {
        let d = i128::from(r.range(0, 60)) * S;
        body.push(("nbf".into(), json!(rfc3339(r, now - d))));
    }
    if r.one_in(4) {
        body.push(("jti".into(), json!(token(r, 12))));
    }
    r.shuffle(&mut header);
    r.shuffle(&mut body);
    Proof { header, body, sig: Some(signature(r)), style: *r.pick(&[0, 0, 1]) }
}

fn request_of(r: &mut Rng, format: &Value, p: Option<&Proof>) -> Value {
    let mut v = format.clone();
    if let (Some(o), Some(p)) = (v.as_object_mut(), p) {
        o.insert("proof".into(), json!({"proof_type": casing(r, "jwt"), "jwt": p.render()}));
    }
    v
}

/// The message as its sender would write it.
fn request_json(code: Option<&str>, pin: Option<u64>) -> Value {
    match code {
        None => json!({"grant_type": {"grant_type": "authorization_code"}}),
        Some(c) => match pin {
            None => json!({"grant_type": {"grant_type": PRE, "pre_authorized_code": c}}),
            Some(p) => json!({"grant_type": {"grant_type": PRE, "pre_authorized_code": c, "user_pin": p}}),
        },
    }
}

fn history(ctx: &mut Ctx, r: &mut Rng) {
    let mut w = World { issuers: vec![], sessions: vec![], registry: BTreeMap::new(), log: vec![], trace: vec![], now: now(r) };
    for k in 0..1 + r.below(3) {
        let mut m = metadata(r);
        if k > 0 && r.flip() {
            let id = w.issuers[0]["credential_issuer"].as_str().unwrap_or("").to_owned();
            m["credential_issuer"] = json!(near(r, &id).0);
        }
        w.issuers.push(m);
    }
    let ids: BTreeSet<String> = w.issuers.iter().map(|m| m["credential_issuer"].to_string()).collect();
    if ids.len() == 3 {
        ctx.class("three issuers");
    }
    let before = ctx.violation_count;
    let steps = 20 + r.below(40);
    for _ in 0..steps {
        w.now = advance(r, &w);
        evalx::set_clock(w.now);
        step(ctx, r, &mut w);
        if ctx.violation_count > before {
            break;
        }
    }
    clock::real();
    let tail: Vec<Value> = w.trace.iter().rev().take(4).rev().cloned().collect();
    ctx.sample(|| json!({"sessions": w.sessions.len(), "messages": w.log.len(), "events": w.trace.len(), "last events": tail}));
}

fn step(ctx: &mut Ctx, r: &mut Rng, w: &mut World) {
    if w.sessions.is_empty() || (w.sessions.len() < 6 && r.one_in(8)) {
        open(ctx, r, w);
        return;
    }
    let i = r.below(w.sessions.len());
    match r.below(10) {
        // honest
        0..=4 => {
            let Some(msg) = honest_message(r, w, i) else { return };
            w.log.push(Sent { from: i, msg, delivered: 0 });
            if r.one_in(8) {
                return; // delayed in the network: the replay branch may deliver it later
            }
            let k = w.log.len() - 1;
            deliver(ctx, r, w, i, k, "honest");
        }
        // any message of the past, to its own session or to another one
        5 | 6 => {
            if w.log.is_empty() {
                return;
            }
            let k = r.below(w.log.len());
            let to = if r.flip() { w.log[k].from } else { r.below(w.sessions.len()) };
            let rel = match (to == w.log[k].from, w.log[k].delivered) {
                (true, 0) => "delayed",
                (true, _) => "replayed",
                (false, _) if w.sessions[to].issuer == w.sessions[w.log[k].from].issuer => "redirected to another session",
                _ => "redirected to another issuer",
            };
            deliver(ctx, r, w, to, k, rel);
        }
        // tampered
        7 | 8 => {
            let Some((msg, what)) = forged_message(r, w, i) else { return };
            w.log.push(Sent { from: i, msg, delivered: 0 });
            let k = w.log.len() - 1;
            deliver(ctx, r, w, i, k, what);
        }
        // the wallet changes its key
        _ => {
            let s = &w.sessions[i];
            let rest = did_url_rest(r);
            if rest == s.rest || rest.is_empty() {
                return;
            }
            let doc = did_document(r, &s.did, &rest, Some(true));
            w.registry.insert(s.did.clone(), doc);
            w.sessions[i].rest = rest;
            w.trace.push(json!({"key rotated": i}));
        }
    }
}

fn open(ctx: &mut Ctx, r: &mut Rng, w: &mut World) {
    let issuer = r.below(w.issuers.len());
    let meta = w.issuers[issuer].clone();
    let last = w.sessions.last().cloned();
    let code = match &last {
        Some(s) if r.one_in(3) => near(r, &s.code).0,
        _ => ident(r),
    };
    let pin = match &last {
        _ if r.one_in(3) => None,
        Some(Session { pin: Some(p), .. }) if r.one_in(3) => Some(near_pin(r, *p) % 100_000_000),
        _ => Some(pin(r)),
    };
    let creds = {
        let mut c = offered(r, &meta);
        if c.is_empty() {
            c.push(profile(r));
        }
        c
    };
    let mut pre = Map::new();
    pre.insert("pre-authorized_code".into(), json!(code));
    match (pin, r.below(3)) {
        (Some(_), _) => {
            pre.insert("user_pin_required".into(), json!(true));
        }
        (None, 0) => {
            pre.insert("user_pin_required".into(), json!(false));
        }
        _ => {}
    }
    let pre = Value::Object(pre);
    let endpoint = issuer::endpoint(r);
    let offer = json!({"credential_issuer": meta["credential_issuer"], "credentials": creds, "grants": {PRE: pre}});
    let witness = json!({"issuer_metadata": meta, "credentials": creds, "pre_authorized_flow": pre, "endpoint": endpoint});
    let m: CredentialIssuerMetadata = match api::read(&meta) {
        Ok(m) => m,
        Err(e) => {
            ctx.violation(format!("the issuer's own metadata is not read: {e}"), witness);
            return;
        }
    };
    let made = ctx.lib("create_offer", || witness.clone(), || {
        CredentialIssuer::create_offer(&m, build::credential_or_ids(&json!(creds)), &endpoint, &None, &build::pre_flow(&pre)).map_err(|e| api::view_ci(&e))
    });
    let (stored, link) = match made {
        None => return,
        Some(Err(e)) => {
            ctx.violation(format!("an honest offer is refused: {}", e.json()), witness);
            return;
        }
        Some(Ok((o, link))) => (serde_json::to_string(&o).unwrap_or_default(), link),
    };
    // the wallet reads the link
    let read = link.rsplit_once("credential_offer=").and_then(|(_, t)| issuer::percent_decode(t.split('#').next().unwrap_or("").split('&').next().unwrap_or("")).ok()).and_then(|t| serde_json::from_str::<Value>(&t).ok());
    let Some(read) = read else {
        // how the link is put together is C14's matter
        ctx.class("link not understood by the wallet");
        return;
    };
    ctx.class("offer read by the wallet");
    let wallet_code = read["grants"][PRE]["pre-authorized_code"].as_str().map(str::to_owned);
    ctx.check(wallet_code.as_deref() == Some(&code), || format!("the wallet reads the code {wallet_code:?}"), || witness.clone());
    ctx.check(
        read["grants"][PRE]["user_pin_required"].as_bool().unwrap_or(false) == pin.is_some(),
        || format!("the wallet reads {}", read["grants"]),
        || witness.clone(),
    );
    let did = did(r);
    let rest = did_url_rest(r);
    let doc = did_document(r, &did, &rest, Some(true));
    w.registry.insert(did.clone(), doc);
    let client = match &last {
        Some(Session { client: Some(c), .. }) if r.one_in(4) => Some(near(r, c).0),
        _ if r.one_in(3) => Some(ident(r)),
        _ => None,
    };
    if pin.is_some() {
        ctx.class("pin session");
    }
    if client.is_some() {
        ctx.class("client session");
    }
    w.trace.push(json!({"at": w.now.to_string(), "session": w.sessions.len(), "issuer": meta["credential_issuer"], "offer": offer, "pin": pin, "client": client, "did": did}));
    w.sessions.push(Session {
        issuer,
        code,
        pin,
        client,
        did,
        rest,
        offer,
        stored,
        wallet_code,
        wallet_nonce: None,
        nonce: None,
        issued: 0,
        messages: 0,
    });
    if w.sessions.len() > 1 {
        ctx.class("interleaved sessions");
    }
}

/// the credential a wallet asks for, from the offer and the metadata
fn wanted(r: &mut Rng, w: &World, i: usize) -> Value {
    let s = &w.sessions[i];
    let c = s.offer["credentials"].as_array().cloned().unwrap_or_default();
    let x = r.pick(&c).clone();
    match x.as_str() {
        Some(id) => oracle::lookup(&w.issuers[s.issuer], id).unwrap_or_else(|| json!({"format": "jwt_vc_json", "types": ["X"]})),
        None => x,
    }
}

fn honest_message(r: &mut Rng, w: &World, i: usize) -> Option<Msg> {
    let s = &w.sessions[i];
    match &s.wallet_nonce {
        None => Some(Msg::Token { code: s.wallet_code.clone(), pin: s.pin }),
        Some((n, _)) => {
            // the wallet starts over now and then, mostly when its nonce is past its lifetime
            let late = s.nonce.as_ref().map_or(false, |n| n.created + i128::from(n.life) * S < w.now);
            if r.one_in(if late { 2 } else { 12 }) {
                return Some(Msg::Token { code: s.wallet_code.clone(), pin: s.pin });
            }
            let p = proof(r, w.issuers[s.issuer]["credential_issuer"].as_str()?, s, n, w.now);
            let format = wanted(r, w, i);
            Some(Msg::Credential { request: request_of(r, &format, Some(&p)) })
        }
    }
}

fn forged_message(r: &mut Rng, w: &World, i: usize) -> Option<(Msg, &'static str)> {
    let s = &w.sessions[i];
    let other = r.pick(&w.sessions).clone();
    let Some(n) = s.nonce.as_ref().filter(|_| !r.one_in(3)) else {
        return Some(match r.below(8) {
            0 => (Msg::Token { code: Some(other.code), pin: s.pin }, "code of another session"),
            1 | 2 => (Msg::Token { code: Some(near(r, &s.code).0), pin: s.pin }, "near code"),
            3 | 4 => {
                let p = s.pin.map(|p| near_pin(r, p)).or_else(|| Some(pin(r)));
                (Msg::Token { code: Some(s.code.clone()), pin: p }, if s.pin.is_some() { "near pin" } else { "unexpected pin" })
            }
            5 => (Msg::Token { code: Some(s.code.clone()), pin: other.pin }, "pin of another session"),
            6 => (Msg::Token { code: Some(s.code.clone()), pin: None }, "missing pin"),
            _ => (Msg::Token { code: None, pin: None }, "authorization code grant"),
        });
    };
    let issuer = w.issuers[s.issuer]["credential_issuer"].as_str()?.to_owned();
    let mut p = proof(r, &issuer, s, &n.value, w.now);
    let format = wanted(r, w, i);
    let what = match r.below(10) {
        0 | 1 => {
            p.set_body("nonce", json!(near(r, &n.value).0));
            "near nonce"
        }
        2 => {
            let o = other.nonce.as_ref().map_or_else(|| token(r, 10), |n| n.value.clone());
            p.set_body("nonce", json!(o));
            "nonce of another session"
        }
        3 => {
            p.set_body("aud", json!(near(r, &issuer).0));
            "near issuer"
        }
        4 => {
            let m = r.pick(&w.issuers).clone();
            p.set_body("aud", m["credential_issuer"].clone());
            "other issuer"
        }
        5 => {
            let c = s.client.clone().unwrap_or_else(|| other.client.clone().unwrap_or_else(|| "c".into()));
            p.set_body("iss", json!(near(r, &c).0));
            "other client"
        }
        6 => {
            let d = i128::from(r.range(0, 5)) * S;
            p.set_body("exp", json!(rfc3339(r, w.now - d)));
            "proof expired"
        }
        7 => {
            let d = i128::from(r.range(1, 5_000_000_000));
            p.set_body("nbf", json!(rfc3339(r, w.now + d)));
            "proof not yet valid"
        }
        8 => {
            p.set_header("typ", json!(*r.pick(&["JWT", "jwt", "openid4vci-proof", "at+jwt", "openid4vci-proof+jwt ", ""])));
            "proof not typed for issuance"
        }
        _ => {
            return Some((Msg::Credential { request: request_of(r, &format, None) }, "without proof"));
        }
    };
    Some((Msg::Credential { request: request_of(r, &format, Some(&p)) }, what))
}

fn deliver(ctx: &mut Ctx, r: &mut Rng, w: &mut World, to: usize, k: usize, rel: &'static str) {
    let msg = w.log[k].msg.clone();
    w.log[k].delivered += 1;
    w.sessions[to].messages += 1;
    if w.sessions[to].messages == 5 {
        ctx.class("fifth message in a session");
    }
    match msg {
        Msg::Token { code, pin } => deliver_token(ctx, r, w, to, code, pin, rel),
        Msg::Credential { request } => deliver_credential(ctx, r, w, to, &request, rel, w.log[k].from),
    }
}

fn story(w: &World, extra: Value) -> Value {
    json!({"clock_ns": w.now.to_string(), "event": extra, "history": w.trace})
}

fn deliver_token(ctx: &mut Ctx, r: &mut Rng, w: &mut World, to: usize, code: Option<String>, p: Option<u64>, rel: &'static str) {
    let s = w.sessions[to].clone();
    let c = TokenCase { code: code.clone(), pin: p, offer: Some(s.offer.clone()), expected_pin: s.pin };
    let violated = oracle::analyse_token(&c);
    let event = json!({"token request": request_json(code.as_deref(), p), "to session": to, "how": rel, "violated": format!("{violated:?}")});
    let read = (|| -> Result<_, String> {
        Ok((api::read::<openid4vci::access_token::AccessTokenRequest>(&request_json(code.as_deref(), p))?, serde_json::from_str::<CredentialOffer>(&s.stored).map_err(|e| e.to_string())?, api::token_opts(s.pin.is_some() || r.flip(), s.pin)?))
    })();
    let (req, offer, opts) = match read {
        Ok(x) => x,
        Err(e) => {
            // more than 32 bits cannot be held by the request: refused all the same
            if p.map_or(true, |p| p <= u64::from(u32::MAX)) {
                ctx.violation(format!("a well-formed token request, offer or PIN is not read: {e}"), story(w, event));
            }
            return;
        }
    };
    ctx.events += 1;
    let o = api::evaluate_token(&req, Some(offer), opts);
    let granted = matches!(o, Outcome::Ok(()));
    ctx.decided(&("token", s.nonce.is_some(), rel, format!("{violated:?}")), true);
    w.trace.push(json!({"at": w.now.to_string(), "token request": [code, p], "to": to, "how": rel, "granted": granted}));
    if granted != violated.is_empty() || matches!(o, Outcome::Panic(_)) {
        let what = if granted { format!("a token is granted although {violated:?}") } else { format!("the entitled wallet gets no token: {}", o.json()) };
        ctx.violation(what, story(w, event));
        return;
    }
    if !granted {
        ctx.class(&format!("token: {rel} refused"));
        if rel == "redirected to another session" || rel == "redirected to another issuer" {
            ctx.class("token: code of another session refused");
        }
        let e = ctx.lib("create_access_token_error_response", || Value::Null, || {
            AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, None, None, None).ok().and_then(|x| serde_json::to_value(x).ok())
        });
        ctx.check(e.flatten().map_or(false, |v| v["error"] == "invalid_grant"), || "the wallet does not read invalid_grant".into(), || Value::Null);
        ctx.class("error delivered");
        return;
    }
    if rel == "replayed" {
        ctx.class("token: replay granted to the same offer");
    }
    // 4.1: the response carries a fresh nonce
    let n = fresh_nonce(r, w);
    let life = life(r);
    let (at, life2) = (token(r, 16), r.below(10_000) as u32);
    let made = ctx.lib("create_access_token_success_response", || Value::Null, || {
        AccessToken::create_access_token_success_response(at.clone(), AccessTokenType::Bearer, Some(life2), None, Some(n.clone()), Some(life), None, None)
            .ok()
            .and_then(|(x, t)| Some((serde_json::to_value(x).ok()?, serde_json::to_value(t).ok()?)))
    });
    let Some(Some((wire, created))) = made else { return };
    if !receive(ctx, w, to, &n, life, &wire, created) {
        return;
    }
    ctx.check(wire["access_token"] == json!(at), || format!("the wallet reads {wire}"), || story(w, Value::Null));
    if rel == "honest" {
        ctx.class("token granted to the honest wallet");
    }
}

fn life(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 2, 5, 59, 60]),
        1 => *r.pick(&[86_400, 31_536_000, u32::MAX, 0x8000_0000]),
        _ => 30 + r.below(600) as u32,
    }
}

fn fresh_nonce(r: &mut Rng, w: &World) -> String {
    let old: Vec<String> = w.sessions.iter().filter_map(|s| s.nonce.as_ref().map(|n| n.value.clone())).collect();
    if !old.is_empty() && r.one_in(3) {
        let o = r.pick(&old).clone();
        near(r, &o).0
    } else {
        ident(r)
    }
}

/// The wallet reads a response with a nonce; the issuer stores it.
fn receive(ctx: &mut Ctx, w: &mut World, to: usize, n: &str, life: u32, wire: &Value, created: Value) -> bool {
    let got = (wire["c_nonce"].as_str().map(str::to_owned), wire["c_nonce_expires_in"].as_u64());
    let ok = ctx.check(
        got.0.as_deref() == Some(n) && got.1 == Some(u64::from(life)),
        || format!("the nonce {n:?} ({life} s) reaches the wallet as {got:?}"),
        || story(w, wire.clone()),
    );
    w.trace.push(json!({"at": w.now.to_string(), "nonce handed out": n, "lifetime": life, "to": to, "created_at": created}));
    let s = &mut w.sessions[to];
    if s.nonce.is_some() {
        ctx.class("nonce rotated");
    }
    s.nonce = Some(Nonce { value: n.to_owned(), life, created: w.now, created_lib: created });
    s.wallet_nonce = got.0.map(|n| (n, got.1.unwrap_or(0)));
    ok
}

fn deliver_credential(ctx: &mut Ctx, r: &mut Rng, w: &mut World, to: usize, request: &Value, rel: &'static str, from: usize) {
    let s = w.sessions[to].clone();
    let Some(n) = s.nonce.clone() else {
        // no token was granted in this session: the issuer does not get this far
        return;
    };
    let meta = w.issuers[s.issuer].clone();
    let event = json!({"credential request": request, "to session": to, "how": rel});
    let q: CredentialRequest = match api::read(request) {
        Ok(q) => q,
        Err(e) => {
            ctx.violation(format!("a well-formed credential request is not read: {e}"), story(w, event));
            return;
        }
    };
    // 5: which DID to resolve
    ctx.events += 1;
    let pre = api::pre_evaluate(&q);
    let jwt = request["proof"]["jwt"].as_str().map(oracle::proof);
    let kid_did = jwt.as_ref().and_then(|p| p.kid.as_ref()).map(|k| oracle::did_of(k));
    let resolved = match &pre {
        Outcome::Ok(d) => d.clone(),
        _ => None,
    };
    // the registry answers for the DID the library asked for; a request it refuses outright goes on with the true one
    let doc = match &pre {
        Outcome::Ok(Some(d)) => w.registry.get(d).cloned(),
        Outcome::Ok(None) => None,
        _ => kid_did.as_ref().and_then(|d| w.registry.get(d)).cloned(),
    };
    let true_doc = kid_did.as_ref().and_then(|d| w.registry.get(d)).cloned();
    let model = |created: Value| {
        let mut o = json!({"c_nonce": {"c_nonce_expires_in": n.life, "expected_c_nonce": n.value, "c_nonce_created_at": created}});
        if let Some(c) = &s.client {
            o["client_id"] = json!(c);
        }
        o
    };
    let a = oracle::analyse(w.now, &meta, request, Some(&s.offer), false, true_doc.as_ref(), Some(&model(json!(oracle::rfc(n.created)))));
    if !a.unspecified.is_empty() {
        ctx.class("not specified");
        return;
    }
    let stored: Value = serde_json::from_str(&s.stored).unwrap_or(Value::Null);
    let opts = model(n.created_lib.clone());
    let inputs = match api::read_eval(&meta, request, Some(&stored), false, doc.as_ref(), Some(&opts)) {
        Ok(i) => i,
        Err((what, e)) => {
            ctx.violation(format!("the {what} of an issuance is not read: {e}"), story(w, event));
            return;
        }
    };
    ctx.events += 1;
    let o = api::evaluate(&inputs);
    let approved = matches!(o, Outcome::Ok(_));
    let left = n.created + i128::from(n.life) * S - w.now;
    let bucket = match left {
        i128::MIN..=-2 => "late",
        -1 => "1 ns late",
        0 => "last instant",
        1 => "1 ns left",
        _ => "in time",
    };
    ctx.decided(&(s.issued.min(3), rel, format!("{:?}", a.violated), bucket, s.client.is_some()), true);
    w.trace.push(json!({"at": w.now.to_string(), "credential request": request, "to": to, "from": from, "how": rel, "resolved": resolved, "approved": approved}));
    if approved != a.violated.is_empty() || matches!(o, Outcome::Panic(_)) || matches!(pre, Outcome::Panic(_)) {
        let what = if approved {
            format!("a credential is approved although {:?} ({rel})", a.violated)
        } else {
            format!("the entitled wallet gets no credential: {} (pre-evaluation {})", o.json(), pre.json())
        };
        ctx.violation(what, story(w, event));
        return;
    }
    let Outcome::Ok(ok) = o else {
        refused(ctx, &a.violated, rel, bucket);
        let e = ctx.lib("create_credential_error_response", || Value::Null, || {
            CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidOrMissingProof, None, None, None)
                .ok()
                .and_then(|x| serde_json::to_value(x).ok())
        });
        ctx.check(e.flatten().map_or(false, |v| v["error"] == "invalid_or_missing_proof"), || "the wallet does not read invalid_or_missing_proof".into(), || Value::Null);
        ctx.class("error delivered");
        return;
    };
    ctx.check(ok.subject == a.did, || format!("the credential goes to {:?}", ok.subject), || story(w, event.clone()));
    ctx.check(Some(&ok.public_key) == a.key.as_ref(), || "the public key is not the one of the wallet's DID document".into(), || story(w, event.clone()));
    match rel {
        "honest" => ctx.class("credential approved for the honest wallet"),
        "replayed" => ctx.class("credential: replay of a current nonce approved"),
        "delayed" => ctx.class("credential: delayed but in time approved"),
        _ => {}
    }
    if bucket == "last instant" {
        ctx.class("at the last instant approved");
    }
    // 5.2: the credential, mostly with a fresh nonce
    let fresh = if r.one_in(4) { None } else { Some((fresh_nonce(r, w), life(r))) };
    let cred = ok.credential.clone();
    let made = ctx.lib("create_credential_success_response", || event.clone(), || {
        let nonce = fresh.as_ref().map(|(n, l)| CNonce { c_nonce: n.clone(), c_nonce_expires_in: Some(*l) });
        let c = guarded(|| serde_json::from_value(cred.clone()).ok()).ok().flatten();
        CredentialIssuer::create_credential_success_response(&q, c.map(CredentialOrAcceptanceToken::Credential), nonce)
            .map_err(|e| api::view_ci(&e).json())
            .map(|(x, t)| (serde_json::to_value(x).unwrap_or(Value::Null), serde_json::to_value(t).unwrap_or(Value::Null)))
    });
    let (wire, created) = match made {
        None => return,
        Some(Err(e)) => {
            ctx.violation(format!("no response can be made for an approved request: {e}"), story(w, event));
            return;
        }
        Some(Ok(x)) => x,
    };
    let got = issuer::decode(&wire["credential"]).map(|c| oracle::norm(&c));
    let mut asked = request.clone();
    if let Some(x) = asked.as_object_mut() {
        x.remove("proof");
    }
    ctx.check(
        got.as_ref().map_or(false, |g| g["format"] == request["format"]) && wire["format"] == request["format"],
        || format!("asked for {asked}, the wallet receives {wire}"),
        || story(w, event.clone()),
    );
    ctx.class("credential delivered");
    w.sessions[to].issued += 1;
    if w.sessions[to].issued == 2 {
        ctx.class("second credential in a session");
    }
    if let Some((n, l)) = fresh {
        receive(ctx, w, to, &n, l, &wire, created);
    }
}

fn refused(ctx: &mut Ctx, v: &BTreeSet<Cond>, rel: &str, bucket: &str) {
    match rel {
        "replayed" if v.contains(&Cond::Nonce) => ctx.class("credential: replay refused"),
        "redirected to another session" | "nonce of another session" if v.contains(&Cond::Nonce) => ctx.class("credential: other session refused"),
        "redirected to another issuer" | "other issuer" if v.contains(&Cond::Aud) => ctx.class("credential: other issuer refused"),
        _ => {}
    }
    let only = v.len() == 1;
    if v.contains(&Cond::NonceExpired) && only {
        ctx.class("credential: late refused");
        if bucket == "1 ns late" {
            ctx.class("one nanosecond late refused");
        }
    }
    if v.contains(&Cond::MethodAbsent) && only {
        ctx.class("credential: rotated key refused");
    }
    if matches!(rel, "near nonce" | "near issuer" | "other client" | "proof expired" | "proof not yet valid" | "proof not typed for issuance" | "without proof") && only {
        ctx.class(&format!("credential: {rel} refused"));
    }
}
