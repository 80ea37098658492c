//! Token endpoint: C01, C02, C18, C28 (and the token part of C19).
use crate::dict;
use crate::api::{self, evaluate_token, read, token_opts, token_request, Outcome};
use crate::build;
use crate::clock;
use crate::core::{guarded, Ctx, Rng};
use crate::gen::{self, *};
use crate::oracle::{analyse_token, Cond, TokenCase};
use crate::Def;
use openid4vci::access_token::{AccessToken, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken};
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn defs() -> Vec<Def> {
    const RULE: &str = "one case = offer, token request and issuer options drawn at random (all flow combinations; codes equal, nearly equal or unrelated; PINs absent, equal, nearly equal, around 10^8 and up to 2^64-1), evaluated by the real library and judged by an independent model; non-trivial = distinct combination of flows, code relation, PIN relation and verdict-relevant conditions with its concrete code and PIN";
    vec![
        Def {
            id: "C01",
            quick: 2_400_000,
            thorough: 9_600_000,
            case: case_token,
            extra: Some(enumerate),
            required: &[
                "approved", "approved with both flows", "rejected: code", "rejected: no offer", "rejected: no pre-authorized flow",
                "rejected: authorization_code grant", "code relation: equal", "code relation: append-space", "code relation: upper",
                "code relation: prefix", "code relation: empty",
            ],
            rule: RULE,
        },
        Def {
            id: "C02",
            quick: 2_400_000,
            thorough: 9_600_000,
            case: case_token,
            extra: Some(enumerate),
            required: &[
                "approved with pin", "approved without pin", "rejected: PinWrong", "rejected: PinMissing", "rejected: PinUnexpected",
                "rejected: PinTooLong", "rejected: PinNotExpectedByIssuer", "pin of 8 digits approved", "pin of 9 digits rejected",
            ],
            rule: RULE,
        },
        Def {
            id: "C18",
            quick: 2_400_000,
            thorough: 9_600_000,
            case: case_success,
            extra: Some(token_types),
            required: &["c_nonce and lifetime", "lifetime without c_nonce", "c_nonce without lifetime", "all members", "only required members", "token type refused", "token type read"],
            rule: "one case = a random set of token response values (all presence combinations, u32 extremes, arbitrary Unicode); the response is compared member by member with what was supplied, in memory and on the wire; non-trivial = distinct presence pattern and values",
        },
        Def {
            id: "C28",
            quick: 3_200_000,
            thorough: 12_800_000,
            case: case_instant,
            extra: None,
            required: &["frozen", "ticking", "sub-second", "token", "credential"],
            rule: "one case = a creation call under a virtual clock that is frozen at, or ticks from, a random instant (1900 to 2200, nanosecond resolution); the returned instant must lie between the clock at the call and at the return; non-trivial = distinct instant",
        },
    ]
}

const PINS: &[u64] = &[
    0, 1, 9, 10, 1234, 123_456, 493_536, 9_999_999, 10_000_000, 12_345_678, 99_999_998, 99_999_999, 100_000_000, 100_000_001, 999_999_999,
    1_000_000_000, 4_294_967_295, 4_294_967_296, 4_294_967_297, 10_000_000_000, u64::MAX - 1, u64::MAX, 1 << 63, (1 << 32) + 1234,
];

fn pin(r: &mut Rng) -> u64 {
    if let Some(n) = dict::number(r, 40).and_then(|n| u64::try_from(n).ok()) {
        return n;
    }
    match r.below(6) {
        0 => *r.pick(PINS),
        1 => r.u64(),
        2 => {
            let d = r.below(20) as u32;
            10u64.pow(d).wrapping_add(r.range(-1, 1) as u64)
        }
        _ => r.range(0, 99_999_999) as u64,
    }
}

fn near_pin(r: &mut Rng, p: u64) -> u64 {
    for _ in 0..20 {
        let q = match r.below(10) {
            0 => p.wrapping_add(1),
            1 => p.wrapping_sub(1),
            2 => p.wrapping_add(1 << 32),
            3 => p % 100_000_000,
            4 => p / 10,
            5 => p.wrapping_mul(10),
            6 => p ^ (1 << r.below(27)),
            7 => p % 10_000,
            8 => match dict::number(r, 2).and_then(|n| u64::try_from(n).ok()) {
                Some(n) => n,
                None => 0,
            },
            _ => p.to_string().chars().rev().collect::<String>().parse().unwrap_or(7),
        };
        if q != p {
            return q;
        }
    }
    p ^ 1
}

pub fn gen_case(r: &mut Rng, pins: bool) -> (TokenCase, String, bool) {
    let code = ident(r);
    let (req_code, rel) = match r.below(8) {
        0 | 1 => {
            let (c, k) = near(r, &code);
            (c, k)
        }
        _ => (code.clone(), "equal"),
    };
    let n = if pins { 3 } else { 6 };
    let want_pin = r.one_in(n);
    // PIN configuration
    let required = match (want_pin, r.below(10)) {
        (true, 0) => None,
        (true, 1) => Some(false),
        (true, _) => Some(true),
        (false, 0) => Some(true),
        (false, n) if n < 5 => Some(false),
        (false, _) => None,
    };
    let base_pin = pin(r);
    let pin_in_request = match (want_pin, r.below(8)) {
        (true, 0) => None,
        (true, _) => Some(base_pin),
        (false, 0) => Some(base_pin),
        (false, _) => None,
    };
    let expected = match r.below(8) {
        0 => None,
        1 | 2 => Some(near_pin(r, base_pin)),
        _ => Some(base_pin),
    };
    let mut pre = json!({ "pre-authorized_code": code });
    if let Some(b) = required {
        pre["user_pin_required"] = json!(b);
    } else if r.one_in(4) {
        pre["user_pin_required"] = Value::Null;
    }
    let offer_v = match r.below(16) {
        0 => None,
        1 => Some((None, None)),
        2 => Some((Some(auth_flow(r)), None)),
        3..=5 => Some((Some(auth_flow(r)), Some(pre))),
        _ => Some((None, Some(pre))),
    }
    .map(|(a, p)| {
        let issuer = url(r);
        let c = if r.one_in(3) { vec![profile(r)] } else { vec![json!("id")] };
        offer(&issuer, c, a, p)
    });
    let (mut offer_v, mut req_code, mut rel) = (offer_v, req_code, rel);
    if let Some(o) = offer_v.as_mut().filter(|_| r.one_in(24)) {
        // the request's code is right somewhere else in the offer
        let c = match r.below(5) {
            0 | 1 if o["grants"]["authorization_code"].is_object() => {
                let c = near(r, &code).0;
                o["grants"]["authorization_code"]["issuer_state"] = json!(c);
                c
            }
            2 => o["credential_issuer"].as_str().unwrap_or("").to_owned(),
            3 => "id".to_owned(),
            _ => base_pin.to_string(),
        };
        if c != code {
            req_code = c;
            rel = "right elsewhere";
        }
    }
    let code = if r.one_in(20) { None } else { Some(req_code) };
    let opts_present = expected.is_some() || r.flip();
    let auth = code.is_none();
    (
        TokenCase {
            pin: if auth { None } else { pin_in_request },
            code,
            offer: offer_v,
            expected_pin: expected,
        },
        if auth { "authorization_code".into() } else { rel.to_owned() },
        opts_present,
    )
}

pub fn witness(c: &TokenCase, o: &Value) -> Value {
    json!({"request_code": c.code, "request_pin": c.pin, "offer": c.offer, "expected_pin": c.expected_pin, "observed": o})
}

const PIN_CONDS: &[Cond] = &[Cond::PinTooLong, Cond::PinMissing, Cond::PinUnexpected, Cond::PinNotExpectedByIssuer, Cond::PinWrong];

pub fn observe(ctx: &mut Ctx, c: &TokenCase, opts_present: bool) -> Option<(Outcome<()>, BTreeSet<Cond>)> {
    let violated = analyse_token(c);
    let req = match token_request(c.code.as_deref(), c.pin) {
        Ok(r) => r,
        Err(e) => {
            ctx.problem(format!("token request not readable: {e}"));
            return None;
        }
    };
    let offer: Option<CredentialOffer> = match c.offer.as_ref().map(read).transpose() {
        Ok(o) => o,
        Err(e) => {
            ctx.problem(format!("offer not readable: {e}"));
            return None;
        }
    };
    let opts = match token_opts(opts_present, c.expected_pin) {
        Ok(o) => o,
        Err(e) => {
            ctx.problem(format!("options not readable: {e}"));
            return None;
        }
    };
    if ctx.prop == "C02" {
        ctx.events += 1;
        let v = guarded(|| req.validate().is_ok());
        let ok = c.pin.map_or(true, |p| p < 100_000_000);
        if v != Ok(ok) {
            ctx.violation(format!("validation of a token request with pin {:?} gave {v:?}, expected accepted={ok}", c.pin), witness(c, &Value::Null));
        }
    }
    ctx.events += 1;
    Some((evaluate_token(&req, offer, opts), violated))
}

fn case_token(ctx: &mut Ctx, r: &mut Rng) {
    let (c, rel, opts) = gen_case(r, ctx.prop == "C02");
    judge_token(ctx, &c, &rel, opts);
}

fn judge_token(ctx: &mut Ctx, c: &TokenCase, rel: &str, opts: bool) {
    let Some((o, violated)) = observe(ctx, c, opts) else { return };
    let c01 = ctx.prop == "C01";
    ctx.class(&format!("code relation: {rel}"));
    let both = c.offer.as_ref().map_or(false, |o| o["grants"].get("authorization_code").is_some() && o["grants"].get(PRE).is_some());
    match &o {
        Outcome::Ok(()) => {
            ctx.class("approved");
            if both {
                ctx.class("approved with both flows");
            }
            ctx.class(if c.pin.is_some() { "approved with pin" } else { "approved without pin" });
            if c.pin.map_or(false, |p| p >= 10_000_000) {
                ctx.class("pin of 8 digits approved");
            }
            let bad: Vec<_> = violated.iter().filter(|v| c01 || PIN_CONDS.contains(v)).collect();
            if !bad.is_empty() {
                ctx.violation(format!("token request approved although {bad:?}"), witness(c, &o.json()));
            }
        }
        Outcome::Err(e) => {
            for v in &violated {
                ctx.class(&format!("rejected: {v:?}"));
                ctx.class(match v {
                    Cond::Code => "rejected: code",
                    Cond::NoTokenOffer => "rejected: no offer",
                    Cond::NoPreFlow => "rejected: no pre-authorized flow",
                    Cond::AuthGrant => "rejected: authorization_code grant",
                    _ => "rejected: pin",
                });
            }
            if c.pin.map_or(false, |p| (100_000_000..1_000_000_000).contains(&p)) {
                ctx.class("pin of 9 digits rejected");
            }
            let pin_involved = c.pin.is_some() || c.offer.as_ref().map_or(false, |o| o["grants"][PRE]["user_pin_required"] == json!(true));
            if violated.is_empty() && (c01 || pin_involved) {
                ctx.violation(format!("token request that meets every condition rejected with {}", e.name), witness(c, &o.json()));
            }
        }
        Outcome::Panic(p) => ctx.violation(format!("evaluation of a token request panicked: {p}"), witness(c, &o.json())),
        Outcome::Unreadable(w, m) => ctx.problem(format!("{w} unreadable: {m}")),
    }
    ctx.decided(&(&c.code, c.pin, c.expected_pin, &violated, both, rel), !c.offer.is_none());
    ctx.sample(|| witness(c, &o.json()));
}

/// Every combination of grant, offer flows, code relation, PIN requirement, PIN and expected PIN
/// over small domains.
fn enumerate(ctx: &mut Ctx) {
    let pins: &[Option<u64>] = &[None, Some(0), Some(1234), Some(99_999_999), Some(100_000_000), Some(999_999_999), Some(1_000_000_000), Some(u64::MAX)];
    let codes: &[&str] = &["code-1", "", "Code-1", "code-1 ", "code-10", "code-"];
    for offer_code in &codes[..2] {
        for req_code in codes {
            for auth_grant in [false, true] {
                for flows in 0..5 {
                    for required in [None, Some(false), Some(true)] {
                        for p in pins {
                            for e in pins {
                                let mut pre = json!({ "pre-authorized_code": offer_code });
                                if let Some(b) = required {
                                    pre["user_pin_required"] = json!(b);
                                }
                                let o = match flows {
                                    0 => None,
                                    1 => Some(gen::offer("https://i", vec![], None, None)),
                                    2 => Some(gen::offer("https://i", vec![], Some(json!({})), None)),
                                    3 => Some(gen::offer("https://i", vec![], Some(json!({"issuer_state": "s"})), Some(pre))),
                                    _ => Some(gen::offer("https://i", vec![], None, Some(pre))),
                                };
                                let c = TokenCase {
                                    code: (!auth_grant).then(|| (*req_code).to_owned()),
                                    pin: if auth_grant { None } else { *p },
                                    offer: o,
                                    expected_pin: *e,
                                };
                                judge_token(ctx, &c, "enumerated", true);
                                if e.is_none() {
                                    judge_token(ctx, &c, "enumerated", false);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C18

fn opt_u32(r: &mut Rng) -> Option<u32> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some(*r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 3600, 86_400, 65_536])),
        _ => Some(r.u64() as u32),
    }
}

fn opt_text(r: &mut Rng) -> Option<String> {
    if r.one_in(3) {
        None
    } else {
        Some(text(r))
    }
}

fn case_success(ctx: &mut Ctx, r: &mut Rng) {
    let all = r.below(8);
    let at = ident(r);
    let f = |v: Option<u32>| match all {
        0 => Some(v.unwrap_or(5)),
        1 => None,
        _ => v,
    };
    let (expires_in, cne, interval) = (f(opt_u32(r)), f(opt_u32(r)), f(opt_u32(r)));
    let (scope, nonce) = match all {
        0 => (Some(text(r)), Some(ident(r))),
        1 => (None, None),
        _ => (opt_text(r), opt_text(r)),
    };
    let pending = match all {
        0 => Some(r.flip()),
        1 => None,
        _ => *r.pick(&[None, Some(true), Some(false)]),
    };
    let supplied = json!({
        "access_token": at, "token_type": "Bearer", "expires_in": expires_in, "scope": scope, "c_nonce": nonce,
        "c_nonce_expires_in": cne, "authorization_pending": pending, "interval": interval,
    });
    let w = supplied.clone();
    clock::set(1_700_000_000, 5);
    let res = ctx.lib("create_access_token_success_response", || w.clone(), || {
        AccessToken::create_access_token_success_response(
            at.clone(), AccessTokenType::Bearer, expires_in, scope.clone(), nonce.clone(), cne, pending, interval,
        )
    });
    let Some(res) = res else { return };
    let resp = match res {
        Ok((resp, _)) => resp,
        Err(e) => {
            ctx.violation(format!("creating a token success response failed: {e}"), w);
            return;
        }
    };
    if nonce.is_some() && cne.is_some() {
        ctx.class("c_nonce and lifetime");
    } else if cne.is_some() {
        ctx.class("lifetime without c_nonce");
    } else if nonce.is_some() {
        ctx.class("c_nonce without lifetime");
    }
    if all == 0 {
        ctx.class("all members");
    }
    if all == 1 {
        ctx.class("only required members");
    }
    let same = resp.access_token == at
        && resp.token_type == AccessTokenType::Bearer
        && resp.expires_in == expires_in
        && resp.scope == scope
        && resp.c_nonce == nonce
        && resp.c_nonce_expires_in == cne
        && resp.authorization_pending == pending
        && resp.interval == interval;
    ctx.check(same, || format!("token response differs from what was supplied: {resp:?}"), || w.clone());
    wire(ctx, &resp, &supplied, &w);
    let valid = ctx.lib("validate", || w.clone(), || resp.validate().is_ok());
    if let Some(v) = valid {
        let expect = !(nonce.is_none() && cne.is_some());
        ctx.check(v == expect, || format!("validation accepted={v}, expected accepted={expect}"), || w.clone());
    }
    // the same response, validated and sent by a consumer that built or parsed it itself
    ctx.decided(&supplied.to_string(), true);
    ctx.sample(|| json!({"supplied": supplied, "wire": serde_json::to_value(&resp).ok()}));
}

fn wire(ctx: &mut Ctx, resp: &AccessTokenSuccessResponse, supplied: &Value, w: &Value) {
    let Some(text) = ctx.lib("serialize token response", || w.clone(), || serde_json::to_string(resp)) else { return };
    let Ok(text) = text else {
        ctx.violation("token response cannot be serialized", w.clone());
        return;
    };
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    ctx.check(
        crate::oracle::same_json(&v, supplied),
        || format!("token response on the wire is {v}"),
        || w.clone(),
    );
    for parse_from in [text, supplied.to_string(), crate::oracle::norm(supplied).to_string()] {
        let back = ctx.lib("parse token response", || w.clone(), || serde_json::from_str::<AccessTokenSuccessResponse>(&parse_from));
        if let Some(b) = back {
            let ok = b.as_ref().map_or(false, |b| b == resp);
            ctx.check(ok, || format!("token response parsed from {parse_from} gives {b:?}"), || w.clone());
        }
    }
}

fn token_types(ctx: &mut Ctx) {
    let s: &str = AccessTokenType::Bearer.into();
    ctx.check(s == "Bearer", || format!("token type Bearer converts to {s:?}"), || json!({}));
    let back = ctx.lib("token type from string", || json!("Bearer"), || AccessTokenType::try_from("Bearer".to_owned()));
    ctx.check(matches!(back, Some(Ok(AccessTokenType::Bearer))), || "\"Bearer\" is not read".into(), || json!({}));
    ctx.class("token type read");
    let mut others: Vec<String> = ["", "DPoP", "MAC", "mac", "Bearer ", " Bearer", "Bearer\0", "Bearer,DPoP", "Basic", "N_A", "BearerX", "Beare", "B"]
        .iter()
        .map(|s| (*s).to_owned())
        .collect();
    let mut r = Rng::new(crate::core::seed_for(ctx.seed, "token-type", 0));
    for _ in 0..400 {
        let (n, _) = near(&mut r, "Bearer");
        others.push(n);
        others.push(text(&mut r));
    }
    for o in others {
        // OAuth token types are case-insensitive: other spellings of Bearer are left open
        if o.eq_ignore_ascii_case("bearer") {
            continue;
        }
        let res = ctx.lib("token type from string", || json!(o), || AccessTokenType::try_from(o.clone()).is_err());
        ctx.check(res == Some(true), || format!("token type {o:?} is not refused"), || json!({ "token_type": o }));
        ctx.class("token type refused");
        let doc = json!({"access_token": "a", "token_type": o}).to_string();
        let res = ctx.lib("parse token response", || json!(o), || serde_json::from_str::<AccessTokenSuccessResponse>(&doc).is_err());
        ctx.check(res == Some(true), || format!("token response with token type {o:?} is not refused"), || json!({ "token_type": o }));
        ctx.decided(&o, true);
    }
}

// ------------------------------------------------------------------ C28

fn case_instant(ctx: &mut Ctx, r: &mut Rng) {
    // 1970..2200, dense around the epoch and second boundaries (the system clock of chrono starts at the epoch)
    let secs = match r.below(6) {
        0 => r.range(0, 7_258_118_400),
        1 => r.range(0, 5),
        _ => r.range(1_500_000_000, 2_500_000_000),
    };
    let ns = *r.pick(&[0, 1, 499_999_999, 500_000_000, 999_999_999]);
    let ns = if r.flip() { ns } else { r.range(0, 999_999_999) };
    let tick = if r.flip() { 0 } else { *r.pick(&[1, 1_000, 1_000_000, 700_000_000, 1_000_000_000, 61_000_000_000]) };
    let token = r.flip();
    let req: Option<CredentialRequest> = if token {
        None
    } else {
        let v = profile(r);
        match read(&v) {
            Ok(q) => Some(q),
            Err(e) => {
                ctx.problem(format!("credential request not readable: {e}"));
                return;
            }
        }
    };
    let life = gen::lifetime(r);
    let cred = r.below(3);
    let cred_profile = build::profile(&profile(r));
    let start = i128::from(secs) * S + i128::from(ns);
    let w = json!({"start_ns": start.to_string(), "tick_ns": tick, "token": token, "lifetime": life});
    clock::set(secs, ns);
    clock::set_tick(tick);
    let reads0 = clock::reads();
    let got = ctx.lib("create success response", || w.clone(), || {
        if token {
            AccessToken::create_access_token_success_response(
                "t".into(), AccessTokenType::Bearer, Some(life), None, Some("n".into()), Some(life), None, None,
            )
            .map(|x| x.1)
            .map_err(|e| e.to_string())
        } else {
            let c = match cred {
                0 => None,
                1 => Some(CredentialOrAcceptanceToken::AcceptanceToken("a".into())),
                _ => Some(CredentialOrAcceptanceToken::Credential(cred_profile)),
            };
            CredentialIssuer::create_credential_success_response(
                req.as_ref().unwrap(),
                c,
                Some(CNonce { c_nonce: "n".into(), c_nonce_expires_in: Some(life) }),
            )
            .map(|x| x.1)
            .map_err(|e| e.to_string())
        }
    });
    let reads = clock::reads() - reads0;
    let end = start + i128::from(reads) * i128::from(tick);
    clock::real();
    let Some(got) = got else { return };
    match got {
        Ok(d) => {
            let t = nanos(&d);
            ctx.check(
                start <= t && t <= end,
                || format!("returned instant {t} is not between the start {start} and the end {end} of the call"),
                || w.clone(),
            );
        }
        Err(e) => ctx.violation(format!("creating a success response failed: {e}"), w.clone()),
    }
    ctx.class(if tick == 0 { "frozen" } else { "ticking" });
    ctx.class(if token { "token" } else { "credential" });
    if ns != 0 {
        ctx.class("sub-second");
    }
    if start < 0 {
        ctx.class("before 1970");
    }
    ctx.decided(&(start, tick, token), true);
    ctx.sample(|| w);
}

// ------------------------------------------------------------------ C19 (token part)

/// Judge the error of a rejected token request.
pub fn judge_error(ctx: &mut Ctx, c: &TokenCase, o: &Outcome<()>, violated: &BTreeSet<Cond>) {
    let Outcome::Err(e) = o else { return };
    ctx.class(&format!("token error {}", e.code));
    let both = c.offer.as_ref().map_or(false, |o| o["grants"].get("authorization_code").map_or(false, |x| !x.is_null()) && o["grants"].get(PRE).map_or(false, |x| !x.is_null()));
    let mut e2 = e;
    if e.code == 405 {
        ctx.check(both, || "error 405 for an offer without both flows".into(), || witness(c, &o.json()));
        let auth = e.inner.first();
        ctx.check(
            auth.map_or(false, |a| a.code == 401 && grant_error_ok(a)),
            || "error 405: the authorized part is not the grant type mismatch".into(),
            || witness(c, &o.json()),
        );
        if let Some(i) = e.inner.get(1) {
            e2 = i;
        }
    }
    let has = |k: Cond| violated.contains(&k);
    let offer_flow = c.offer.as_ref().and_then(|o| crate::oracle::flow(o, PRE));
    let ok = match e2.leaf().code {
        1 => has(Cond::PinTooLong),
        402 => has(Cond::AuthGrant),
        401 => (has(Cond::AuthGrant) || has(Cond::NoPreFlow)) && grant_error_names(c, e2),
        409 => has(Cond::NoTokenOffer),
        403 => {
            // neither flow
            has(Cond::NoPreFlow) && c.offer.as_ref().map_or(false, |o| crate::oracle::flow(o, "authorization_code").is_none())
        }
        404 => {
            let required = offer_flow.map_or(false, |p| p["user_pin_required"] == json!(true));
            let matches = offer_flow.map_or(false, |p| p["pre-authorized_code"].as_str() == c.code.as_deref());
            (has(Cond::Code) || has(Cond::PinMissing) || has(Cond::PinUnexpected))
                && e2.fields["should_pin_be_supplied"] == json!(required)
                && e2.fields["does_code_match"] == json!(matches)
        }
        406 => has(Cond::PinNotExpectedByIssuer),
        407 => has(Cond::PinWrong),
        _ => false,
    };
    ctx.check(
        ok,
        || format!("token request rejected with {} ({}), violated: {violated:?}", e2.leaf().name, e2.leaf().fields),
        || witness(c, &o.json()),
    );
}

fn grant_error_ok(e: &api::ErrView) -> bool {
    let mentions = |v: &Value, what: &str| v.to_string().contains(what);
    mentions(&e.fields["requested_grant_type"], "pre_authorized_code") && mentions(&e.fields["accepted_grant_type"], "\"authorized_code_flow\"")
}

fn grant_error_names(c: &TokenCase, e: &api::ErrView) -> bool {
    if c.code.is_some() {
        grant_error_ok(e)
    } else {
        e.fields["requested_grant_type"].to_string().contains("\"authorized_code_flow\"")
    }
}
