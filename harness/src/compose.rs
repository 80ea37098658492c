//! C38: the operations a consumer can call one by one agree with the operations composed of them, and
//! values built by hand agree with values the operations build.
use crate::api::{self, ErrView, Outcome};
use crate::build;
use crate::clock;
use crate::core::{guarded, Ctx, Rng};
use crate::dict;
use crate::evalx;
use crate::gen::*;
use crate::issuer;
use crate::oracle::{self, Cond};
use crate::tokens;
use crate::Def;
use openid4vci::access_token::error::AccessTokenResult;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::GrantType;
use openid4vci::credential_issuer::error::CredentialIssuerResult;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId, CredentialOrIds,
};
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::credential::CredentialFormatProfileOrEncoded;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::str::FromStr;

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C38",
        quick: 150_000,
        thorough: 2_500_000,
        case,
        extra: None,
        required: &[
            "steps: all succeed", "steps: one fails", "steps: several fail", "step failed: metadata", "step failed: request", "step failed: offer",
            "step failed: nonce lifetime", "step failed: proof missing", "step failed: parse", "step failed: time", "step failed: nonce", "step failed: iss",
            "step failed: aud", "step failed: key", "step failed: did", "pre-evaluation: succeeds", "pre-evaluation: fails", "response: given", "response: refused",
            "token: valid", "token: invalid", "offer: created", "offer: refused", "offer: resolution fails", "list: resolved", "list: fails", "list: converted",
            "word accepted", "word refused", "error through a return object",
        ],
        rule: "one case = a credential request, token request, offer, credential list, credential response, word or error with random content; what the composed operation answers is compared with what the stand-alone steps (validate, parse, verify, check_*, extract_*, to_signable_message, resolve, new, url_encode, try_from) answer for the same values; non-trivial = distinct input",
    }]
}

fn js<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap_or(Value::Null)
}

fn case(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(16) {
        0..=7 => credential(ctx, r),
        8 | 9 => token(ctx, r),
        10..=12 => offer_steps(ctx, r),
        13 => response(ctx, r),
        14 => words(ctx, r),
        _ => returned(ctx, r),
    }
}

/// What an error names, without the texts other libraries contribute.
fn said(e: &ErrView) -> (u32, String) {
    let l = e.leaf();
    (l.code, l.fields.to_string())
}

// ------------------------------------------------------------------ evaluation

struct Steps {
    /// (step, what its error says, if the step is a call)
    failed: Vec<(&'static str, Option<(u32, String)>)>,
    proof: Option<ProofJwt>,
    /// two steps that should be the same and are not
    differs: Option<String>,
}

impl Steps {
    fn note(&mut self, step: &'static str, e: Option<(u32, String)>) {
        self.failed.push((step, e));
    }
    fn jwt<T>(&mut self, step: &'static str, x: Result<T, openid4vci::jwt::error::JwtError>) -> Option<T> {
        match x {
            Ok(v) => Some(v),
            Err(e) => {
                self.note(step, Some(said(&api::view_jwt(&e))));
                None
            }
        }
    }
}

fn credential(ctx: &mut Ctx, r: &mut Rng) {
    let s = evalx::scenario(r, evalx::ALL);
    let w = s.input();
    let Ok(i) = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()) else {
        ctx.class("unreadable input");
        return;
    };
    evalx::set_clock(s.now);
    let res = guarded(|| {
        let whole = api::evaluate(&i);
        let pre = api::pre_evaluate(&i.request);
        (whole, pre, stepwise(&s, &i))
    });
    clock::real();
    let (whole, pre, (steps, parts)) = match res {
        Ok(x) => x,
        Err(p) => {
            ctx.violation(format!("panicked: {p}"), w);
            return;
        }
    };
    ctx.events += 14;
    ctx.decided(&w.to_string(), true);
    let names: Vec<&str> = steps.failed.iter().map(|(n, _)| *n).collect();
    for n in &names {
        ctx.class(&format!("step failed: {n}"));
    }
    ctx.class(match names.len() {
        0 => "steps: all succeed",
        1 => "steps: one fails",
        _ => "steps: several fail",
    });
    if let Some(d) = &steps.differs {
        ctx.violation(d.clone(), w.clone());
    }
    // the evaluation
    match &whole {
        Outcome::Ok(a) => {
            ctx.check(names.is_empty(), || format!("approved although, on its own, {names:?} fails"), || w.clone());
            if let Some((key, alg, message, signature, did)) = &parts {
                ctx.check(&a.public_key == key, || format!("the evaluation reports key {}, the step extracts {}", hex(&a.public_key), hex(key)), || w.clone());
                ctx.check(&a.algorithm == alg, || format!("the evaluation reports algorithm {}, the step extracts {alg}", a.algorithm), || w.clone());
                ctx.check(&a.message == message, || "the evaluation reports another message than the step builds".into(), || w.clone());
                ctx.check(&a.signature == signature, || "the evaluation reports another signature than the step extracts".into(), || w.clone());
                ctx.check(&a.subject == did, || format!("the evaluation reports subject {:?}, the step extracts {did:?}", a.subject), || w.clone());
            }
            ctx.check(a.credential == js(&i.request.format), || "the evaluation reports another credential than was requested".into(), || w.clone());
        }
        Outcome::Err(e) => {
            if ctx.check(!names.is_empty(), || format!("rejected with {} although each step succeeds on its own", e.json()), || w.clone()) {
                let (code, fields) = said(e);
                let named = steps.failed.iter().any(|(n, x)| match (x, *n) {
                    (Some((c, f)), _) => *c == code && *f == fields,
                    (None, "offer") => code == 109,
                    (None, "authorization server") => code == 108,
                    (None, "nonce lifetime") => code == 111 || code == 106,
                    (None, _) => code == 112 || code == 110,
                });
                ctx.check(named, || format!("rejected with {}, which none of the failing steps {:?} says", e.json(), steps.failed), || w.clone());
            }
        }
        Outcome::Panic(p) => ctx.violation(format!("evaluation panicked: {p}"), w.clone()),
        Outcome::Unreadable(..) => {}
    }
    // the pre-evaluation
    let early: Vec<_> = steps.failed.iter().filter(|(n, _)| ["request", "parse", "did"].contains(n)).collect();
    match &pre {
        Outcome::Ok(did) => {
            ctx.class("pre-evaluation: succeeds");
            ctx.check(early.is_empty(), || format!("pre-evaluated although, on its own, {early:?} fails"), || w.clone());
            let want = steps.proof.as_ref().and_then(|p| p.extract_did().ok()).flatten();
            ctx.check(*did == want, || format!("the pre-evaluation reports {did:?}, the step extracts {want:?}"), || w.clone());
        }
        Outcome::Err(e) => {
            ctx.class("pre-evaluation: fails");
            let x = said(e);
            ctx.check(early.iter().any(|(_, y)| y.as_ref() == Some(&x)), || format!("pre-evaluation failed with {}, the steps fail with {early:?}", e.json()), || w.clone());
        }
        Outcome::Panic(p) => ctx.violation(format!("pre-evaluation panicked: {p}"), w.clone()),
        Outcome::Unreadable(..) => {}
    }
    ctx.sample(|| json!({"input": w, "failing_steps": names, "answer": whole.json()}));
}

type Parts = (Vec<u8>, String, Vec<u8>, Vec<u8>, Option<String>);

/// The evaluation, as a consumer would do it with the stand-alone steps.
fn stepwise(s: &Scn, i: &api::EvalInputs) -> (Steps, Option<Parts>) {
    let mut st = Steps { failed: vec![], proof: None, differs: None };
    if let Err(e) = i.meta.validate() {
        st.note("metadata", Some(said(&api::view_validation(&e))));
    }
    if let Err(e) = i.request.validate() {
        st.note("request", Some(said(&api::view_validation(&e))));
    }
    match &i.offer {
        None => st.note("offer", None),
        Some(o) => {
            if let Err(e) = o.validate() {
                st.note("offer", Some(said(&api::view_validation(&e))));
            }
        }
    }
    if i.as_meta.is_some() {
        st.note("authorization server", None);
    }
    let c_nonce = i.opts.as_ref().and_then(|o| o.c_nonce.as_ref());
    if let Some(c) = c_nonce {
        if nanos(&c.c_nonce_created_at) + i128::from(c.c_nonce_expires_in) * 1_000_000_000 < s.now {
            st.note("nonce lifetime", None);
        }
    }
    let Some(p) = &i.request.proof else {
        st.note("proof missing", None);
        return (st, None);
    };
    let jwt = match ProofJwt::from_str(&p.jwt) {
        Ok(j) => j,
        Err(e) => {
            st.note("parse", Some(said(&api::view_validation(&e))));
            return (st, None);
        }
    };
    if let Err(e) = jwt.validate() {
        // (what makes a proof invalid belongs to reading it)
        st.note("parse", Some(said(&api::view_validation(&e))));
    }
    st.jwt("time", jwt.verify());
    st.jwt("nonce", jwt.check_nonce(c_nonce.map(|c| c.expected_c_nonce.clone())));
    if let Some(o) = &i.opts {
        let g = i.offer.as_ref().map(|o| (o.grants.authorized_code_flow.is_some(), o.grants.pre_authorized_code_flow.is_some()));
        if o.client_id.is_some() || g.map_or(true, |(auth, pre)| auth || !pre) {
            st.jwt("iss", jwt.check_iss(o.client_id.clone()));
        }
    }
    st.jwt("aud", jwt.check_aud(&i.meta.credential_issuer));
    let key = st.jwt("key", jwt.extract_key_and_alg(i.doc.as_ref()));
    let of_header = jwt.header.extract_key_and_alg(i.doc.as_ref());
    match (&key, &of_header) {
        (Some((k, a)), Ok((l, b))) if k == l && api::alg_name(a) == api::alg_name(b) => {}
        (None, Err(_)) => {}
        _ => st.differs = Some(format!("the header's key is {of_header:?}, the proof's {key:?}")),
    }
    let signature = st.jwt("signature", jwt.extract_signature());
    let message = st.jwt("message", jwt.to_signable_message());
    let did = st.jwt("did", jwt.extract_did());
    let parts = match (key, signature, message, did) {
        (Some((k, a)), Some(s), Some(m), Some(d)) => Some((k, api::alg_name(&a).to_owned(), m, s, d)),
        _ => None,
    };
    st.proof = Some(jwt);
    (st, parts)
}

// ------------------------------------------------------------------ token requests

fn token(ctx: &mut Ctx, r: &mut Rng) {
    let pins = r.flip();
    let (c, _, opts) = tokens::gen_case(r, pins);
    let Ok(req) = api::token_request(c.code.as_deref(), c.pin) else { return };
    let g = match (&c.code, c.pin) {
        (None, _) => GrantType::AuthorizedCodeFlow,
        (Some(code), user_pin) => GrantType::PreAuthorizedCodeFlow { pre_authorized_code: code.clone(), user_pin },
    };
    let w = tokens::witness(&c, &Value::Null);
    let checked = ctx.lib("validate", || w.clone(), || (req.validate().map_err(|e| e.to_string()), g.validate().map_err(|e| e.to_string())));
    let Some((request, grant)) = checked else { return };
    ctx.check(request == grant, || format!("the request validates to {request:?}, its grant to {grant:?}"), || w.clone());
    ctx.class(if request.is_ok() { "token: valid" } else { "token: invalid" });
    ctx.decided(&w.to_string(), true);
    let Some((o, _)) = tokens::observe(ctx, &c, opts) else { return };
    match &o {
        Outcome::Ok(()) => {
            ctx.check(request.is_ok(), || format!("approved although the request validates to {request:?}"), || w.clone());
        }
        Outcome::Err(e) => {
            if e.leaf().code == 1 {
                ctx.check(request.is_err(), || format!("rejected as invalid ({}) although it validates", e.json()), || w.clone());
            }
        }
        Outcome::Panic(p) => ctx.violation(format!("evaluation panicked: {p}"), w),
        Outcome::Unreadable(..) => {}
    }
}

// ------------------------------------------------------------------ offers

fn tidy(v: &Value) -> Value {
    oracle::norm(v)
}

fn offer_steps(ctx: &mut Ctx, r: &mut Rng) {
    let violate = r.one_in(3);
    let c = issuer::gen_offer(r, violate);
    let w = c.json();
    let Ok(meta) = api::read::<CredentialIssuerMetadata>(&c.meta) else { return };
    let (auth, pre) = (c.auth.as_ref().and_then(build::auth_flow), c.pre.as_ref().and_then(build::pre_flow));
    let items: Vec<CredentialOrId> = c.creds.iter().map(build::credential_or_id).collect();
    ctx.decided(&w.to_string(), true);
    // lists however they are built
    let same = ctx.lib("build lists", || w.clone(), || {
        let refs: Vec<&CredentialOrId> = items.iter().collect();
        let list = CredentialOrIds::new(items.clone());
        let mut all = vec![CredentialOrIds::from(items.clone()) == list, CredentialOrIds::from(&refs[..]) == list];
        for x in &items {
            all.push(match x {
                CredentialOrId::CredentialId(s) => CredentialOrId::from(s.clone()) == *x && CredentialOrId::from(s.as_str()) == *x,
                CredentialOrId::Credential(p) => CredentialOrId::from(p.clone()) == *x,
            });
        }
        all
    });
    let Some(same) = same else { return };
    ctx.class("list: converted");
    ctx.check(same.iter().all(|x| *x), || format!("a list or entry is converted into another one ({same:?})"), || w.clone());
    // resolution, all at once and one by one
    let list = CredentialOrIds::new(items.clone());
    let got = ctx.lib("resolve", || w.clone(), || {
        let all = list.resolve_all(&meta).map(|l| l.iter().map(js).collect::<Vec<_>>()).map_err(|e| js(&e.information()));
        let each: Result<Vec<Value>, Value> = items.iter().map(|x| x.resolve(&meta).map(|p| js(&p)).map_err(|e| js(&e.information()))).collect();
        (all, each)
    });
    let Some((all, each)) = got else { return };
    ctx.class(if all.is_ok() { "list: resolved" } else { "list: fails" });
    ctx.check(all == each, || format!("the list resolves to {all:?}, its entries to {each:?}"), || w.clone());
    // the offer
    let valid = ctx.lib("validate", || w.clone(), || meta.validate().map_err(|e| e.to_string()));
    let Some(valid) = valid else { return };
    let made = ctx.lib("create_offer", || w.clone(), || {
        CredentialIssuer::create_offer(&meta, CredentialOrIds::new(items.clone()), &c.endpoint, &auth, &pre)
            .map(|(o, u)| {
                let encoded = o.url_encode().map_err(|e| js(&e.information()));
                let ok = o.validate().is_ok();
                (o, u, encoded, ok)
            })
            .map_err(|e| (said(&api::view_ci(&e)), js(&e.information())))
    });
    let Some(made) = made else { return };
    let fits = valid.is_ok() && auth.is_none() && all.is_ok();
    match made {
        Ok((offer, url, encoded, ok)) => {
            ctx.class("offer: created");
            ctx.check(fits, || format!("an offer is created although the metadata validates to {valid:?} and the credentials resolve to {all:?}"), || w.clone());
            ctx.check(ok, || "a created offer does not validate".into(), || w.clone());
            let own = CredentialOffer::new(&meta.credential_issuer, CredentialOrIds::new(items), &auth, &pre);
            ctx.check(own == offer, || format!("created offer {}, built by hand {}", js(&offer), js(&own)), || w.clone());
            // the value of the parameter says the same as the encoded offer (claims have no order)
            let value = url.rsplit_once("credential_offer=").map(|(_, v)| v).and_then(|v| issuer::percent_decode(v).ok());
            let value: Option<Value> = value.and_then(|v| serde_json::from_str(&v).ok());
            let encoded = encoded.ok().and_then(|v| issuer::percent_decode(&v).ok()).and_then(|v| serde_json::from_str::<Value>(&v).ok());
            ctx.check(value.is_some() && value.as_ref().map(tidy) == encoded.as_ref().map(tidy), || format!("the url carries {value:?}, the offer encodes to {encoded:?}"), || w.clone());
        }
        Err((what, info)) => {
            ctx.class("offer: refused");
            if !fits && valid.is_ok() && auth.is_none() {
                ctx.class("offer: resolution fails");
                ctx.check(all.as_ref().err() == Some(&info), || format!("the offer is refused with {info}, resolution with {all:?}"), || w.clone());
            }
            ctx.check(!fits, || format!("an offer is refused with {what:?} although every step succeeds"), || w.clone());
        }
    }
}

// ------------------------------------------------------------------ responses

fn response(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = honest(r);
    match r.below(6) {
        0 => crate::forms::break_form(r, &mut s),
        1 => evalx::mutate(r, &mut s, Cond::Form),
        2 => s.proof = None,
        _ => {}
    }
    let given = profile(r);
    let w = json!({"credential_request": s.request(), "given": given});
    let Ok(q) = api::read::<CredentialRequest>(&s.request()) else { return };
    let got = ctx.lib("create_credential_success_response", || w.clone(), || {
        let valid = q.validate().map_err(|e| said(&api::view_validation(&e)));
        let proof = q.proof.as_ref().map(|p| p.validate().map_err(|e| said(&api::view_validation(&e))));
        let n = CNonce { c_nonce: "n".into(), c_nonce_expires_in: Some(1) };
        let made = CredentialIssuer::create_credential_success_response(&q, Some(CredentialOrAcceptanceToken::Credential(build::profile(&given))), Some(n));
        let by_hand = CredentialFormatProfileOrEncoded::try_from(build::profile(&given)).map(|c| js(&c)).map_err(|e| e.to_string());
        (valid, proof, made.map(|(x, _)| js(&x)).map_err(|e| said(&api::view_ci(&e))), by_hand, q.format.get_format_name())
    });
    let Some((valid, proof, made, by_hand, name)) = got else { return };
    ctx.decided(&w.to_string(), true);
    if let Some(p) = &proof {
        ctx.check(p.is_ok() || valid.is_err(), || format!("the request validates although its proof does not: {p:?}"), || w.clone());
    }
    ctx.check(js(&q.format)["format"] == json!(name), || format!("the format is called {name} and written {}", js(&q.format)), || w.clone());
    match made {
        Ok(v) => {
            ctx.class("response: given");
            ctx.check(valid.is_ok(), || format!("a response is made although the request validates to {valid:?}"), || w.clone());
            ctx.check(v["format"] == json!(name), || format!("the response names format {}, the request {name}", v["format"]), || w.clone());
            let encoded = by_hand.as_ref().ok();
            let same = encoded.map_or(false, |e| e.is_object() == v["credential"].is_object() && issuer::decode(e).is_some() && issuer::decode(e) == issuer::decode(&v["credential"]));
            ctx.check(same, || format!("the response carries {}, conversion gives {by_hand:?}", v["credential"]), || w.clone());
        }
        Err(e) => {
            ctx.class("response: refused");
            ctx.check(valid.as_ref().err() == Some(&e), || format!("the response is refused with {e:?}, the request validates to {valid:?}"), || w.clone());
        }
    }
}

// ------------------------------------------------------------------ words

fn words(ctx: &mut Ctx, r: &mut Rng) {
    const KNOWN: &[&str] = &[
        "Bearer", "invalid_request", "invalid_client", "invalid_grant", "access_denied", "unsupported_response_type", "invalid_scope", "server_error",
        "temporarily_unavailable", "invalid_token", "unsupported_credential_type", "unsupported_credential_format", "invalid_or_missing_proof",
        "unauthorized_client", "unsupported_grant_type", "issuance_pending", "slow_down", "authorization_pending",
    ];
    let word = match r.below(8) {
        0..=2 => (*r.pick(KNOWN)).to_owned(),
        3..=5 => {
            let k = *r.pick(KNOWN);
            near(r, k).0
        }
        6 => dict::word(r, 2).unwrap_or_else(|| text(r)),
        _ => text(r),
    };
    one::<AccessTokenType>(ctx, "token type", &word, |s| AccessTokenType::try_from(s).ok(), |x| <&str>::from(x));
    one::<AccessTokenErrorCode>(ctx, "token error code", &word, |s| AccessTokenErrorCode::try_from(s).ok(), |x| <&str>::from(x));
    one::<CredentialIssuerErrorCode>(ctx, "credential error code", &word, |s| CredentialIssuerErrorCode::try_from(s).ok(), |x| <&str>::from(x));
    ctx.decided(&word, true);
}

/// A word and the value it stands for: conversion, reading and writing agree.
fn one<T>(ctx: &mut Ctx, kind: &str, word: &str, convert: impl Fn(String) -> Option<T>, name: impl Fn(T) -> &'static str)
where
    T: DeserializeOwned + Serialize + Clone + PartialEq + std::fmt::Debug,
{
    let w = json!({"kind": kind, "word": word});
    let got = ctx.lib(kind, || w.clone(), || (convert(word.to_owned()), serde_json::from_str::<T>(&json!(word).to_string()).ok()));
    let Some((converted, read)) = got else { return };
    if let Some(x) = &converted {
        ctx.class("word accepted");
        let (n, j) = (name(x.clone()), js(x));
        ctx.check(n == word, || format!("{word:?} is converted to a {kind} called {n:?}"), || w.clone());
        ctx.check(j == json!(word), || format!("{word:?} is converted to a {kind} written {j}"), || w.clone());
    } else {
        ctx.class("word refused");
    }
    ctx.check(converted == read, || format!("{word:?} is converted to {converted:?} and read as {read:?}"), || w.clone());
}

// ------------------------------------------------------------------ return objects

fn returned(ctx: &mut Ctx, r: &mut Rng) {
    let (info, object, text, what) = if r.flip() {
        let (e, d) = crate::errors::gen_ci(r);
        let text = e.to_string();
        let info = e.information();
        let shown = info.to_string();
        let res: CredentialIssuerResult<String> = Err(e);
        (js(&info), js(&res.to_return_object()), (text, shown), d.code)
    } else {
        let (e, d) = crate::errors::gen_at(r, 2);
        let text = e.to_string();
        let info = e.information();
        let shown = info.to_string();
        let res: AccessTokenResult<String> = Err(e);
        (js(&info), js(&res.to_return_object()), (text, shown), d.code)
    };
    ctx.events += 4;
    ctx.class("error through a return object");
    let w = json!({"information": info, "return_object": object, "text": text.0, "shown": text.1, "code": what});
    ctx.decided(&w.to_string(), true);
    ctx.check(object["error"] == info, || "a return object carries other information than the error gives".into(), || w.clone());
    ctx.check(info["description"] == json!(text.0), || "the description is not the text of the error".into(), || w.clone());
    let shown: Option<Value> = serde_json::from_str(&text.1).ok();
    ctx.check(shown.as_ref() == Some(&info), || "information is shown as something else than it is written as".into(), || w.clone());
}

