//! Guarantees about pairs of values and of calls: C36 (an answer follows from what the decision is about),
//! C37 (equality, hashing and copies agree with what values say).
use crate::api::{self, Outcome};
use crate::beyond::document;
use crate::build;
use crate::clock;
use crate::core::{guarded, Ctx, Rng};
use crate::dict;
use crate::errors;
use crate::evalx;
use crate::gen::*;
use crate::issuer;
use crate::tokens;
use crate::Def;
use openid4vci::access_token::{AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions, GrantType};
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOfferGrants, CredentialOrAcceptanceToken,
    CredentialOrId, CredentialOrIds, CredentialSuccessResponse, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::{ProofJwt, ProofJwtAlgorithm};
use openid4vci::return_object::ReturnObject;
use openid4vci::types::credential::{CredentialFormatProfile, CredentialSubject, LinkedDataContext};
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported, DisplayProperties};
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C36",
            quick: 180_000,
            thorough: 2_000_000,
            case: case_relevant,
            extra: None,
            required: &[
                "token: approved alike", "token: rejected alike", "token: varied the offer's issuer", "token: varied the offered credentials",
                "token: varied the authorization-code grant", "token: varied the expected PIN that nothing is measured against",
                "credential: approved alike", "credential: rejected alike", "credential: varied supported credentials", "credential: varied metadata members",
                "credential: varied the offer's issuer", "credential: varied the offered credentials", "credential: varied the requested credential",
                "credential: varied other methods of the DID document", "credential: varied members of the DID document",
                "credential: varied sub", "credential: varied iat", "credential: varied unknown claims", "credential: varied unknown parameters",
                "credential: varied the signature", "credential: varied the form of the proof", "credential: varied the proof object",
                "pre-evaluation alike", "offer: created alike", "offer: refused alike", "offer: varied supported credentials", "offer: varied metadata members",
                "offer: varied the flow", "offer: varied the endpoint", "response alike",
            ],
            rule: "one case = one operation (token request, credential request with its pre-evaluation, offer, credential response) with random inputs, answered twice: once as is, and once with one to three of the parts changed that its decision is not about; both answers must be the same, apart from the parts that are only repeated in it; non-trivial = distinct pair of inputs",
        },
        Def {
            id: "C37",
            quick: 720_000,
            thorough: 2_880_000,
            case: case_equal,
            extra: Some(algorithms),
            required: &[
                "equal, different documents", "different by one member", "unrelated", "copies", "hashes of equal values", "hashes of different values", "error",
                "response", "return object", "algorithm",
            ],
            rule: "one case = two values of one type, read from the same document, from documents that differ in one place, or from unrelated ones, or two errors or results; == must hold exactly if both say the same, in both orders, hashes of equal values are equal, and a copy equals its original and says the same; non-trivial = distinct pair of documents",
        },
    ]
}

fn js<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap_or(Value::Null)
}

// ------------------------------------------------------------------ C36

fn case_relevant(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(8) {
        0 | 1 => token_pair(ctx, r),
        2 => offer_creation(ctx, r),
        3 => response(ctx, r),
        _ => credential(ctx, r),
    }
}

fn token_pair(ctx: &mut Ctx, r: &mut Rng) {
    let pins = r.flip();
    let (base, _, opts) = tokens::gen_case(r, pins);
    if base.offer.is_none() {
        return;
    }
    let answer = |c: &crate::oracle::TokenCase, opts: bool| {
        let req = api::token_request(c.code.as_deref(), c.pin).ok()?;
        let offer: Option<CredentialOffer> = c.offer.as_ref().map(api::read).transpose().ok()?;
        let o = api::token_opts(opts, c.expected_pin).ok()?;
        Some(api::evaluate_token(&req, offer, o))
    };
    let Some(a) = answer(&base, opts) else { return };
    let mut v = base.clone();
    let mut vopts = opts;
    let mut changed = vec![];
    for _ in 0..1 + r.below(3) {
        let Some(o) = v.offer.as_mut() else { break };
        match r.below(4) {
            0 => {
                let s = o["credential_issuer"].as_str().unwrap_or("").to_owned();
                o["credential_issuer"] = json!(match r.below(4) {
                    0 => near(r, &s).0,
                    1 => base.code.clone().unwrap_or_default(),
                    _ => ident(r),
                });
                changed.push("token: varied the offer's issuer");
            }
            1 => {
                let m = metadata(r);
                let mut c = offered_loosely(r, &m);
                if r.one_in(3) {
                    c.push(json!(base.code.clone().unwrap_or_default()));
                }
                o["credentials"] = json!(c);
                changed.push("token: varied the offered credentials");
            }
            2 if o["grants"]["authorization_code"].is_object() => {
                o["grants"]["authorization_code"] = auth_flow(r);
                if r.one_in(3) {
                    let other = o["grants"]["urn:ietf:params:oauth:grant-type:pre-authorized_code"]["pre-authorized_code"].as_str().map(str::to_owned);
                    o["grants"]["authorization_code"]["issuer_state"] = json!(if r.flip() { base.code.clone() } else { other });
                }
                changed.push("token: varied the authorization-code grant");
            }
            3 if base.pin.is_none() => {
                v.expected_pin = if r.one_in(3) { None } else { Some(r.u64() >> r.below(64)) };
                vopts = r.flip();
                changed.push("token: varied the expected PIN that nothing is measured against");
            }
            _ => {}
        }
    }
    if changed.is_empty() {
        return;
    }
    let Some(b) = answer(&v, vopts) else { return };
    ctx.events += 2;
    ctx.class(if matches!(a, Outcome::Ok(_)) { "token: approved alike" } else { "token: rejected alike" });
    changed.iter().for_each(|c| ctx.class(c));
    if a != b {
        let w = json!({"first": tokens::witness(&base, &a.json()), "then": tokens::witness(&v, &b.json()), "changed": changed});
        ctx.violation("the answer to a token request depends on something that the decision is not about", w);
    }
    ctx.decided(&(format!("{base:?}"), format!("{v:?}")), true);
}

/// Other supported credentials under the same ids (the same number of times each).
fn resupply(r: &mut Rng, meta: &mut Value, named: &[Value]) {
    let ids = ids_of(meta);
    let mut all: Vec<Value> = ids.iter().map(|id| supported(r, Some(id.clone()))).collect();
    for _ in 0..r.below(4) {
        let id = loop {
            let id = match (r.below(3), ids.is_empty()) {
                (0, false) => {
                    let id = r.pick(&ids).clone();
                    near(r, &id).0
                }
                _ => format!("{}#{}", text(r), r.u64()),
            };
            if !ids.contains(&id) && !named.contains(&json!(id)) {
                break id;
            }
        };
        let id = if r.flip() || all.iter().any(|c| c["id"] == json!(id)) { None } else { Some(id) };
        let c = supported(r, id);
        all.push(c);
    }
    r.shuffle(&mut all);
    meta["credentials_supported"] = Value::Array(all);
}

/// Everything else in issuer metadata but its name and its supported credentials.
fn redress(r: &mut Rng, meta: &mut Value) {
    let other = metadata(r);
    let Some(m) = meta.as_object_mut() else { return };
    m.retain(|k, _| k == "credential_issuer" || k == "credentials_supported");
    for (k, v) in other.as_object().into_iter().flatten() {
        if !m.contains_key(k) {
            m.insert(k.clone(), v.clone());
        }
    }
    for k in ["authorization_server", "batch_credential_endpoint"] {
        if r.one_in(4) {
            m.insert(k.into(), m["credential_issuer"].clone());
        }
    }
}

/// Replaces the methods that cannot be meant by the key identifier.
fn other_methods(r: &mut Rng, doc: &mut Value, kid: &str) -> bool {
    let did = kid.split(['#', '?', '/']).next().unwrap_or(kid).to_owned();
    let rest = kid[did.len()..].to_owned();
    let bare = rest.trim_start_matches(['#', '?', '/']).to_owned();
    let own = |id: &str| id == kid || id == rest || id == bare || id == did;
    let mut changed = false;
    let Some(d) = doc.as_object_mut() else { return false };
    for s in SECTIONS {
        let Some(a) = d.get_mut(*s).and_then(Value::as_array_mut) else { continue };
        let before = a.len();
        a.retain(|m| m["id"].as_str().map_or(true, |id| own(id)) || r.flip());
        changed |= a.len() != before;
    }
    for _ in 0..r.below(4) {
        let s = SECTIONS[r.below(SECTIONS.len())];
        let id = match r.below(3) {
            0 => format!("{did}#{}", token(r, 12)),
            1 => format!("{kid}{}", token(r, 8)),
            _ => {
                let other = self::did(r);
                format!("{other}#{}", token(r, 12))
            }
        };
        let ok = r.flip();
        let m = method(r, &id, &did, ok);
        let a = d.entry(s).or_insert_with(|| json!([]));
        if let Some(a) = a.as_array_mut() {
            let at = r.below(a.len() + 1);
            a.insert(at, m);
            changed = true;
        }
    }
    changed
}

fn names(e: &api::ErrView) -> Value {
    json!([e.code, e.name, e.inner.iter().map(names).collect::<Vec<_>>()])
}

fn credential(ctx: &mut Ctx, r: &mut Rng) {
    let s = if r.flip() { honest(r) } else { evalx::scenario(r, evalx::ALL) };
    let answer = |s: &Scn| {
        let i = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok()?;
        evalx::set_clock(s.now);
        let x = api::evaluate(&i);
        clock::real();
        let p = guarded(|| CredentialIssuer::pre_evaluate_credential_request(&i.request).map_err(|e| names(&api::view_ci(&e))));
        Some((x, p))
    };
    let Some((a, pa)) = answer(&s) else { return };
    let mut v = s.clone();
    let mut changed: Vec<&'static str> = vec![];
    let (mut proof, mut format) = (false, false);
    for _ in 0..1 + r.below(3) {
        match r.below(14) {
            0 => {
                resupply(r, &mut v.meta, &[]);
                changed.push("credential: varied supported credentials");
            }
            1 => {
                redress(r, &mut v.meta);
                changed.push("credential: varied metadata members");
            }
            2 => {
                let Some(o) = v.offer.as_mut() else { continue };
                let i = o["credential_issuer"].as_str().unwrap_or("").to_owned();
                o["credential_issuer"] = match r.below(3) {
                    0 => json!(near(r, &i).0),
                    1 => s.meta["credential_issuer"].clone(),
                    _ => json!(ident(r)),
                };
                changed.push("credential: varied the offer's issuer");
            }
            3 => {
                let m = if r.flip() { metadata(r) } else { s.meta.clone() };
                let c = offered_loosely(r, &m);
                let Some(o) = v.offer.as_mut() else { continue };
                o["credentials"] = json!(c);
                changed.push("credential: varied the offered credentials");
            }
            4 => {
                v.format = profile(r);
                format = true;
                changed.push("credential: varied the requested credential");
            }
            5 | 6 => {
                if s.raw.is_some() {
                    continue;
                }
                let (Some(kid), Some(d)) = (s.kid(), v.doc.as_mut()) else { continue };
                if other_methods(r, d, &kid) {
                    changed.push("credential: varied other methods of the DID document");
                }
            }
            7 => {
                let Some(d) = v.doc.as_mut().and_then(Value::as_object_mut) else { continue };
                d.retain(|k, _| k == "@context" || k == "id" || SECTIONS.contains(&k.as_str()));
                for _ in 0..r.below(3) {
                    match r.below(3) {
                        0 => {
                            let e = url(r);
                            d.insert("service".into(), json!([{"id": "#s", "type": "LinkedDomains", "serviceEndpoint": e}]));
                        }
                        1 => {
                            let o = did(r);
                            d.insert("alsoKnownAs".into(), json!([o]));
                        }
                        _ => {
                            let o = did(r);
                            d.insert("controller".into(), json!(o));
                        }
                    }
                }
                changed.push("credential: varied members of the DID document");
            }
            // (from here on the proof, unless it is none)
            k => {
                if s.raw.is_some() {
                    continue;
                }
                let Some(p) = v.proof.as_mut() else { continue };
                let what = match k {
                    8 => {
                        if p.body.iter().any(|(n, x)| n == "sub" && !x.is_string() && !x.is_null()) {
                            continue;
                        }
                        match r.below(4) {
                            0 => p.unset_body("sub"),
                            1 => p.set_body("sub", Value::Null),
                            _ => {
                                let x = if r.flip() { text(r) } else { did(r) };
                                p.set_body("sub", json!(x));
                            }
                        }
                        "credential: varied sub"
                    }
                    9 => {
                        // (an instant: not one that makes the proof unreadable, and only where one is)
                        let well = p.body.iter().find(|(n, _)| n == "iat").map_or(false, |(_, x)| crate::oracle::instant(x).is_some());
                        if !well {
                            continue;
                        }
                        let t = if r.flip() { now(r) } else { s.now - slack(r) };
                        if dt(t).is_none() {
                            continue;
                        }
                        let x = json!(rfc3339(r, t));
                        p.set_body("iat", x);
                        "credential: varied iat"
                    }
                    10 => {
                        let x = decoy(r, s.now);
                        let name = dict::fresh_word(r, 3).unwrap_or_else(|| format!("x_{}", token(r, 6)));
                        if p.body.iter().chain(&p.header).any(|(n, _)| *n == name) {
                            continue;
                        }
                        p.set_body(&name, x);
                        "credential: varied unknown claims"
                    }
                    11 => {
                        let x = decoy(r, s.now);
                        let name = format!("x_{}", token(r, 6));
                        p.set_header(&name, x);
                        "credential: varied unknown parameters"
                    }
                    12 => {
                        // another of the same kind
                        let plain = p.sig.as_deref().map_or(false, |t| t.len() > 4 && t.len() % 4 != 1 && t.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_'));
                        if !plain {
                            continue;
                        }
                        p.sig = Some(signature(r));
                        "credential: varied the signature"
                    }
                    _ => {
                        p.style = (p.style + 1 + r.below(2) as u8) % 3;
                        if r.flip() {
                            // names are distinct, so that the order is of no importance
                            let mut n: Vec<String> = p.body.iter().map(|(n, _)| n.clone()).collect();
                            n.sort();
                            n.dedup();
                            if n.len() == p.body.len() {
                                r.shuffle(&mut p.body);
                            }
                        }
                        if r.one_in(3) {
                            let x = decoy(r, s.now);
                            v.proof_extra.insert(format!("x_{}", token(r, 6)), x);
                            changed.push("credential: varied the proof object");
                        }
                        "credential: varied the form of the proof"
                    }
                };
                proof = true;
                changed.push(what);
            }
        }
    }
    if changed.is_empty() {
        return;
    }
    let Some((b, pb)) = answer(&v) else {
        ctx.class("credential: the variant is not readable");
        return;
    };
    ctx.events += 4;
    ctx.class(if matches!(a, Outcome::Ok(_)) { "credential: approved alike" } else { "credential: rejected alike" });
    changed.iter().for_each(|c| ctx.class(c));
    let w = || json!({"first": s.input(), "then": v.input(), "changed": changed, "answer": a.json(), "other_answer": b.json()});
    let same = match (&a, &b) {
        (Outcome::Ok(x), Outcome::Ok(y)) => {
            x.algorithm == y.algorithm
                && x.public_key == y.public_key
                && x.subject == y.subject
                && x.has_pop == y.has_pop
                && (proof || (x.message == y.message && x.signature == y.signature))
                && (format || x.credential == y.credential)
                && (proof || format || x.wire == y.wire)
        }
        (Outcome::Err(x), Outcome::Err(y)) => {
            if proof {
                names(x) == names(y)
            } else {
                x == y
            }
        }
        _ => false,
    };
    if !same {
        ctx.violation("the answer to a credential request depends on something that the decision is not about", w());
    }
    ctx.class("pre-evaluation alike");
    if pa != pb {
        ctx.violation("the pre-evaluation of a credential request depends on something other than its key identifier", w());
    }
    ctx.decided(&(s.input().to_string(), v.input().to_string()), true);
}

fn offer_creation(ctx: &mut Ctx, r: &mut Rng) {
    let bad = r.one_in(3);
    let c = issuer::gen_offer(r, bad);
    let create = |meta: &Value, endpoint: &Option<String>, pre: &Option<Value>| {
        let m: CredentialIssuerMetadata = api::read(meta).ok()?;
        let items = build::credential_or_ids(&json!(c.creds));
        let auth = c.auth.as_ref().and_then(build::auth_flow);
        let pre = pre.as_ref().and_then(build::pre_flow);
        Some(guarded(|| {
            CredentialIssuer::create_offer(&m, items, endpoint, &auth, &pre).map(|(o, u)| (js(&o), u)).map_err(|e| api::view_ci(&e).json())
        }))
    };
    let Some(a) = create(&c.meta, &c.endpoint, &c.pre) else { return };
    let (mut meta, mut end, mut pre) = (c.meta.clone(), c.endpoint.clone(), c.pre.clone());
    let mut changed = vec![];
    let (mut link, mut flow) = (false, false);
    for _ in 0..1 + r.below(3) {
        match r.below(4) {
            0 => {
                resupply(r, &mut meta, &c.creds);
                changed.push("offer: varied supported credentials");
            }
            1 => {
                redress(r, &mut meta);
                changed.push("offer: varied metadata members");
            }
            2 => {
                let code = ident(r);
                pre = if r.one_in(4) { None } else { Some(pre_flow(r, &code)) };
                flow = true;
                changed.push("offer: varied the flow");
            }
            _ => {
                end = issuer::endpoint(r);
                link = true;
                changed.push("offer: varied the endpoint");
            }
        }
    }
    let Some(b) = create(&meta, &end, &pre) else { return };
    ctx.events += 2;
    ctx.class(if matches!(a, Ok(Ok(_))) { "offer: created alike" } else { "offer: refused alike" });
    changed.iter().for_each(|c| ctx.class(c));
    // (the order of members within the offer is of no importance)
    let said = |u: &str| {
        let at = u.rfind("credential_offer=").map_or(0, |i| i + "credential_offer=".len());
        let o = issuer::percent_decode(&u[at..]).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        (u[..at].to_owned(), o.map_or_else(|| json!({ "undecoded": u[at..] }), |o| json!({ "decoded": o })))
    };
    let same = match (&a, &b) {
        (Ok(Ok((x, u))), Ok(Ok((y, t)))) => {
            let (mut x, mut y) = (x.clone(), y.clone());
            if flow {
                x["grants"] = Value::Null;
                y["grants"] = Value::Null;
            }
            x == y && (flow || link || said(u) == said(t))
        }
        (Ok(Err(x)), Ok(Err(y))) => x == y,
        _ => false,
    };
    if !same {
        let w = json!({"input": c.json(), "metadata": meta, "endpoint": end, "flow": pre, "changed": changed, "first": format!("{a:?}"), "then": format!("{b:?}")});
        ctx.violation("the creation of an offer depends on something that the decision is not about", w);
    }
    ctx.decided(&(c.json().to_string(), meta.to_string(), &end), true);
}

fn response(ctx: &mut Ctx, r: &mut Rng) {
    // (a response is made for the format that was requested, whoever proves what)
    let (a, b) = (honest(r), honest(r));
    let mut bq = b.clone();
    bq.format = a.format.clone();
    if r.one_in(4) {
        bq.proof = None;
    }
    let (Ok(x), Ok(y)) = (api::read::<CredentialRequest>(&a.request()), api::read::<CredentialRequest>(&bq.request())) else { return };
    let given = profile(r);
    let kind = r.below(3);
    let nonce = if r.flip() { Some((text(r), lifetime(r))) } else { None };
    let answer = |q: &CredentialRequest| {
        let given = match kind {
            0 => None,
            1 => Some(CredentialOrAcceptanceToken::AcceptanceToken(given.to_string())),
            _ => Some(CredentialOrAcceptanceToken::Credential(build::profile(&given))),
        };
        let n = nonce.clone().map(|(c, l)| CNonce { c_nonce: c, c_nonce_expires_in: Some(l) });
        guarded(|| CredentialIssuer::create_credential_success_response(q, given, n).map(|(s, _)| js(&s)).map_err(|e| names(&api::view_ci(&e)))).map(|x| {
            x.map(|mut v| {
                // (the order within an encoded credential is of no importance)
                if let Some(c) = issuer::decode(&v["credential"]) {
                    v["credential"] = json!({ "encoded": c });
                }
                v
            })
        })
    };
    let (p, q) = (answer(&x), answer(&y));
    ctx.events += 2;
    ctx.class("response alike");
    if p != q {
        let w = json!({"first": a.request(), "then": bq.request(), "given": given, "answer": format!("{p:?}"), "other_answer": format!("{q:?}")});
        ctx.violation("a credential response depends on the proof of the request", w);
    }
    ctx.decided(&(a.request().to_string(), bq.request().to_string()), true);
}

// ------------------------------------------------------------------ C37

/// Changes one place of a document.
fn change(r: &mut Rng, v: &mut Value) {
    let paths = leaves(v);
    if paths.is_empty() {
        return;
    }
    let path = r.pick(&paths).clone();
    let Some(x) = v.pointer_mut(&path) else { return };
    let new = match &*x {
        Value::String(s) => match r.below(6) {
            0 => Value::Null,
            1 => {
                // an instant, a little later
                match chrono::DateTime::parse_from_rfc3339(s) {
                    Ok(t) => json!((t + chrono::Duration::nanoseconds(*r.pick(&[1, 1000, 1_000_000_000, -1]))).to_rfc3339()),
                    Err(_) => json!(near(r, s).0),
                }
            }
            _ => json!(near(r, s).0),
        },
        Value::Number(n) => match (n.as_u64(), r.below(4)) {
            (_, 0) => Value::Null,
            (Some(n), 1) => json!(n ^ (1 << r.below(32))),
            (Some(n), _) => json!(n.wrapping_add(1)),
            _ => json!(r.u64() as f64 / 8.0),
        },
        Value::Bool(b) => {
            if r.one_in(3) {
                Value::Null
            } else {
                json!(!b)
            }
        }
        Value::Null => match r.below(4) {
            0 => json!([]),
            1 => json!(r.below(100)),
            2 => json!(r.flip()),
            _ => json!(text(r)),
        },
        Value::Array(a) => {
            let mut a = a.clone();
            match (a.len(), r.below(3)) {
                (0, _) => a.push(json!(text(r))),
                (n, 0) if n > 1 => {
                    let i = r.below(n - 1);
                    a.swap(i, i + 1);
                }
                (n, 1) => {
                    a.remove(r.below(n));
                }
                (n, _) => {
                    let e = a[r.below(n)].clone();
                    a.insert(r.below(n + 1), e);
                }
            }
            Value::Array(a)
        }
        Value::Object(m) => {
            let mut m = m.clone();
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() || r.one_in(4) {
                m.insert(text(r), any_json(r, 1));
            } else {
                let k = r.pick(&keys).clone();
                if let Some(old) = m.remove(&k) {
                    if r.flip() {
                        m.insert(near(r, &k).0, old);
                    }
                }
            }
            Value::Object(m)
        }
    };
    *x = new;
}

fn leaves(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: &str, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => {
                out.push(at.to_owned());
                for (k, x) in m {
                    go(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
                }
            }
            Value::Array(a) => {
                out.push(at.to_owned());
                for (i, x) in a.iter().enumerate() {
                    go(x, &format!("{at}/{i}"), out);
                }
            }
            _ => out.push(at.to_owned()),
        }
    }
    let mut out = vec![];
    go(v, "", &mut out);
    out
}

fn judge<T: PartialEq + Serialize>(ctx: &mut Ctx, kind: &str, a: &T, b: &T, said: bool, w: &dyn Fn() -> Value) {
    ctx.events += 1;
    let got = guarded(|| (a == b, b == a, a != b, a == a, b == b));
    let ok = matches!(got, Ok((x, y, n, true, true)) if x == said && y == said && n != said);
    if !ok {
        let how = if said { "that say the same" } else { "that say different things" };
        ctx.violation(format!("values of {kind} {how} compare as {got:?}"), w());
    }
}

fn copied<T: Clone + Serialize>(ctx: &mut Ctx, kind: &str, a: &T, w: &dyn Fn() -> Value) {
    ctx.events += 1;
    let b = guarded(|| js(&a.clone()));
    if b != Ok(js(a)) {
        ctx.violation(format!("the copy of {kind} says something else"), json!({"input": w(), "copy": format!("{b:?}")}));
    } else {
        ctx.class("copies");
    }
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn hashed<T: Hash + Serialize>(ctx: &mut Ctx, kind: &str, a: &T, b: &T, said: bool, w: &dyn Fn() -> Value) {
    let h = guarded(|| (hash(a), hash(b)));
    match h {
        Ok((x, y)) if !said || x == y => ctx.class(if said { "hashes of equal values" } else { "hashes of different values" }),
        _ => ctx.violation(format!("equal values of {kind} have the hashes {h:?}"), w()),
    }
}

type Pair<T> = (T, T, bool);

/// Two values of a type, and whether they say the same.
fn pair<T: DeserializeOwned + Serialize>(ctx: &mut Ctx, kind: &str, a: &Value, b: &Value) -> Option<Pair<T>> {
    let (x, y) = (api::read::<T>(a).ok()?, api::read::<T>(b).ok()?);
    let said = js(&x) == js(&y);
    ctx.class(match (said, a == b) {
        (true, true) => "equal",
        (true, false) => "equal, different documents",
        _ => "different",
    });
    ctx.class(kind);
    Some((x, y, said))
}

fn case_equal(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(8) {
        0 => return errors_equal(ctx, r),
        1 => return returned_equal(ctx, r),
        _ => {}
    }
    const KINDS: &[&str] = &[
        "issuer metadata", "offer", "grants", "credential request", "token request", "grant type", "format profile", "credential list", "credential or id",
        "token response", "credential response", "nonce", "nonce options", "credential options", "token options", "authorization flow", "pre-authorized flow",
        "supported credential", "proof", "context", "credential subject", "display",
    ];
    let kind = *r.pick(KINDS);
    let doc = |r: &mut Rng| match kind {
        "context" => {
            if r.flip() {
                json!(url(r))
            } else {
                any_json(r, 2)
            }
        }
        "credential subject" => {
            let m = subject_map(r);
            m.as_object().and_then(|m| m.values().next().cloned()).unwrap_or_else(|| json!({}))
        }
        "display" => {
            let s = supported(r, None);
            s["display"][0].clone()
        }
        _ => document(r, kind),
    };
    let a = doc(r);
    let b = match r.below(8) {
        0 => a.clone(),
        1 => {
            ctx.class("unrelated");
            doc(r)
        }
        _ => {
            let mut b = a.clone();
            change(r, &mut b);
            if r.one_in(4) {
                change(r, &mut b);
            } else {
                ctx.class("different by one member");
            }
            b
        }
    };
    let w = || json!({"kind": kind, "first": a, "then": b});
    macro_rules! eq {
        ($t:ty) => {{
            if let Some((x, y, s)) = pair::<$t>(ctx, kind, &a, &b) {
                judge(ctx, kind, &x, &y, s, &w);
            }
        }};
    }
    macro_rules! eq_copy {
        ($t:ty) => {{
            if let Some((x, y, s)) = pair::<$t>(ctx, kind, &a, &b) {
                judge(ctx, kind, &x, &y, s, &w);
                judge(ctx, kind, &x, &x.clone(), true, &w);
                copied(ctx, kind, &x, &w);
            }
        }};
    }
    macro_rules! copy {
        ($t:ty) => {{
            if let Ok(x) = api::read::<$t>(&a) {
                copied(ctx, kind, &x, &w);
            }
        }};
    }
    match kind {
        "issuer metadata" => {
            // (without an equality of its own: its parts)
            if let (Ok(x), Ok(y)) = (api::read::<CredentialIssuerMetadata>(&a), api::read::<CredentialIssuerMetadata>(&b)) {
                let said = js(&x.credentials_supported) == js(&y.credentials_supported);
                judge(ctx, kind, &x.credentials_supported, &y.credentials_supported, said, &w);
            }
        }
        "offer" => eq!(CredentialOffer),
        "grants" => eq!(CredentialOfferGrants),
        "credential request" => copy!(CredentialRequest),
        "token request" => eq_copy!(AccessTokenRequest),
        "grant type" => eq_copy!(GrantType),
        "format profile" => eq_copy!(CredentialFormatProfile),
        "credential list" => eq!(CredentialOrIds),
        "credential or id" => eq_copy!(CredentialOrId),
        "token response" => eq_copy!(AccessTokenSuccessResponse),
        "credential response" => eq!(CredentialSuccessResponse),
        "nonce" => {
            if let Some((x, y, s)) = pair::<CNonce>(ctx, kind, &a, &b) {
                judge(ctx, kind, &x, &y, s, &w);
                hashed(ctx, kind, &x, &y, s, &w);
            }
        }
        "nonce options" => {
            if let Some((x, y, s)) = pair::<CNonceOptions>(ctx, kind, &a, &b) {
                judge(ctx, kind, &x, &y, s, &w);
                hashed(ctx, kind, &x, &y, s, &w);
                copied(ctx, kind, &x, &w);
            }
        }
        "credential options" => {
            if let Some((x, y, s)) = pair::<EvaluateCredentialRequestOptions>(ctx, kind, &a, &b) {
                judge(ctx, kind, &x, &y, s, &w);
                hashed(ctx, kind, &x, &y, s, &w);
                copied(ctx, kind, &x, &w);
            }
        }
        "token options" => eq_copy!(EvaluateAccessTokenRequestOptions),
        "authorization flow" => eq_copy!(AuthorizedCodeFlow),
        "pre-authorized flow" => eq_copy!(PreAuthorizedCodeFlow),
        "supported credential" => eq!(CredentialSupported),
        "proof" => {
            copy!(ProofJwt);
            if let (Ok(x), Ok(y)) = (api::read::<ProofJwt>(&a), api::read::<ProofJwt>(&b)) {
                let (x, y) = (x.header.additional_header, y.header.additional_header);
                judge(ctx, "key of a proof", &x, &y, js(&x) == js(&y), &w);
                judge(ctx, "key of a proof", &x, &x.clone(), true, &w);
            }
        }
        "context" => eq_copy!(LinkedDataContext),
        "credential subject" => eq_copy!(CredentialSubject),
        _ => eq!(DisplayProperties),
    }
    ctx.decided(&(kind, a.to_string(), b.to_string()), true);
    ctx.sample(w);
}

/// The derived text names the variants, which the serialized form does not; the order within maps is
/// of no importance.
fn alike(a: &str, b: &str) -> bool {
    let letters = |t: &str| {
        let mut l = t.as_bytes().to_vec();
        l.sort_unstable();
        l
    };
    a == b || !a.starts_with("InvalidAuthorizedAndPreAuthorized") && letters(a) == letters(b)
}

fn errors_equal(ctx: &mut Ctx, r: &mut Rng) {
    // the same generator state gives the same error
    let seed = r.u64();
    let other = if r.flip() { seed } else { r.u64() };
    macro_rules! errs {
        ($gen:expr) => {{
            let (a, d) = $gen(&mut Rng::new(seed));
            let (b, e) = $gen(&mut Rng::new(other));
            let text = |x: &dyn std::fmt::Debug| format!("{x:?}");
            let said = js(&a) == js(&b) && alike(&text(&a), &text(&b));
            let _ = (d, e);
            let w = || json!({"first": text(&a), "then": text(&b)});
            judge(ctx, "an error", &a, &b, said, &w);
            judge(ctx, "an error", &a, &a.clone(), true, &w);
            copied(ctx, "an error", &a, &w);
            ctx.decided(&(text(&a), text(&b)), true);
        }};
    }
    ctx.class("error");
    match r.below(4) {
        0 => errs!(errors::gen_validation),
        1 => errs!(errors::gen_jwt),
        2 => errs!(errors::gen_ci),
        _ => errs!(|r: &mut Rng| errors::gen_at(r, 1)),
    }
}

fn returned_equal(ctx: &mut Ctx, r: &mut Rng) {
    if r.flip() {
        // the answers of the library themselves
        let s = honest(r);
        let v = if r.flip() { s.clone() } else { honest(r) };
        let answer = |s: &Scn| {
            let i = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok()?;
            evalx::set_clock(s.now);
            let x = guarded(|| CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), None, i.doc.as_ref(), i.opts.clone()));
            clock::real();
            x.ok()?.ok()
        };
        let (Some(a), Some(b)) = (answer(&s), answer(&v)) else { return };
        let w = || json!({"first": s.input(), "then": v.input()});
        ctx.class("response");
        judge(ctx, "an evaluation's answer", &a, &b, js(&a) == js(&b), &w);
        ctx.decided(&(s.input().to_string(), v.input().to_string()), true);
        return;
    }
    let part = |r: &mut Rng| {
        (
            if r.flip() { Some(any_json(r, 1)) } else { None },
            if r.flip() { Some(errors::gen_ci(r).0) } else { None },
            match r.below(3) {
                0 => None,
                _ => Some((0..r.below(4)).map(|_| text(r)).collect::<Vec<_>>()),
            },
        )
    };
    let x = part(r);
    let mut y = x.clone();
    let z = part(r);
    match r.below(5) {
        0 => y.0 = z.0,
        1 => y.1 = z.1,
        2 => y.2 = z.2,
        3 => {
            let n = y.2.as_ref().map_or(0, Vec::len);
            match y.2.as_mut() {
                Some(l) if n > 1 => l.swap(0, n - 1),
                Some(l) => l.push(text(r)),
                None => y.2 = Some(vec![]),
            }
        }
        _ => {}
    }
    let (a, b) = (ReturnObject { info: x.0, error: x.1, warnings: x.2 }, ReturnObject { info: y.0, error: y.1, warnings: y.2 });
    let w = || json!({"first": js(&a), "then": js(&b)});
    ctx.class("return object");
    let said = js(&a) == js(&b) && alike(&format!("{a:?}"), &format!("{b:?}"));
    judge(ctx, "a return object", &a, &b, said, &w);
    ctx.decided(&(js(&a).to_string(), js(&b).to_string()), true);
}

fn algorithms(ctx: &mut Ctx) {
    let w = || json!("the names of algorithms and token types, pairwise");
    let all: Vec<(&str, ProofJwtAlgorithm)> =
        ALGS_OK.iter().chain(ALGS_BAD).filter_map(|n| api::read::<ProofJwtAlgorithm>(&json!(n)).ok().map(|a| (*n, a))).collect();
    for (n, a) in &all {
        for (m, b) in &all {
            judge(ctx, "an algorithm", a, b, n == m, &w);
            judge(ctx, "an algorithm", &a.clone(), b, n == m, &w);
            ctx.class("algorithm");
        }
    }
    let types: Vec<AccessTokenType> =
        ["bearer", "Bearer"].iter().filter_map(|n| api::read::<AccessTokenType>(&json!(n)).ok()).collect();
    for a in &types {
        judge(ctx, "a token type", a, &a.clone(), true, &w);
    }
}
