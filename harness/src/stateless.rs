//! C23 (no undefined behaviour, by Miri, AddressSanitizer and std's precondition checks) and
//! C24 (operations are stateless, by differential monitors and ThreadSanitizer).
use crate::{ambient, api};
use crate::build;
use crate::clock;
use crate::core::{guarded, hash_of, seed_for, Ctx, Rng};
use crate::errors;
use crate::evalx;
use crate::forms;
use crate::gen::*;
use crate::hostile;
use crate::issuer::{self, OfferCase};
use crate::oracle::{self, Cond, TokenCase};
use crate::tokens;
use crate::{root, Def};
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken, CredentialOrId};
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::{Validatable, ValidationError};
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C23",
            quick: 0,
            thorough: 0,
            case: crate::none,
            extra: Some(memory),
            required: &[
                "Miri: library calls", "AddressSanitizer: library calls", "precondition checks: library calls", "error variant read on the stack",
                "error variant read on the heap", "error variant read in a vector", "error variant read in a result", "error variant read at an odd offset",
                "all 40 documented codes read", "texts checked for UTF-8",
            ],
            rule: "one observation = one library call under Miri (undefined behaviour interpreter), AddressSanitizer, or std's unsafe-precondition checks; the workload reads the code of every error variant at every kind of place, and puts generated, mutated and hostile inputs to every operation; violated by any report of the instrument, or by a text that is not UTF-8; non-trivial = distinct input (of the precondition-check run)",
        },
        Def {
            id: "C24",
            quick: 1_200,
            thorough: 60_000,
            case: case_stateless,
            extra: Some(processes),
            required: &[
                "operation: evaluate credential request", "operation: pre-evaluate", "operation: evaluate token request", "operation: create offer",
                "operation: credential response", "operation: error information", "operation: proof", "operation: token response", "operation: error response",
                "operation: resolve", "answer: approved", "answer: rejected", "repeated at once", "repeated in another order", "repeated concurrently",
                "repeated in a fresh process", "family: same proof, later", "family: same key id, other document", "family: same nonce, other proof",
                "family: same issuer, other metadata", "family: wrong tokens, then the right one", "inputs compared", "ThreadSanitizer: library calls",
            ],
            rule: "one case = a pool of about 40 operations, many of them relatives of each other (same key id with another DID document, same proof later, same nonce in another proof, same issuer with other metadata, wrong codes before the right one); every operation is answered in order, repeated at once, in shuffled order, concurrently by four threads, and (for a sample) in fresh processes under other environments; all answers to one operation must be equal and its inputs unchanged; non-trivial = distinct operation and answer",
        },
    ]
}

// ------------------------------------------------------------------ operations as closures

pub struct Op {
    pub label: &'static str,
    pub family: Option<&'static str>,
    now: i128,
    call: Box<dyn Fn() -> Value + Send + Sync>,
    inputs: Box<dyn Fn() -> Value + Send + Sync>,
    pub witness: Value,
}

impl Op {
    pub fn answer(&self) -> Value {
        evalx::set_clock(self.now);
        ambient::inside(true);
        let v = guarded(|| (self.call)()).unwrap_or_else(|p| json!({ "panicked": p }));
        ambient::inside(false);
        clock::real();
        v
    }
}

fn js<T: serde::Serialize>(x: &T) -> Value {
    // maps of the library have no order
    serde_json::to_value(x).map_or(Value::Null, |v| oracle::norm(&v))
}

fn eval_ops(s: &Scn, family: Option<&'static str>, out: &mut Vec<Op>) {
    let read = || api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()).ok();
    let Some(i) = read() else { return };
    let Some(j) = read() else { return };
    let witness = s.input();
    let w2 = witness.clone();
    let a = std::sync::Arc::new(i);
    let b = a.clone();
    out.push(Op {
        label: "evaluate credential request",
        family,
        now: s.now,
        call: Box::new(move || {
            let r = CredentialIssuer::evaluate_credential_request(
                &a.meta,
                &a.request,
                a.offer.as_ref(),
                a.as_meta.as_ref(),
                a.doc.as_ref(),
                a.opts.clone(),
            );
            match r {
                Ok(v) => {
                    let mut x = js(&v);
                    let p = api::approved(&v);
                    x["bytes"] = json!([p.public_key, p.message, p.signature]);
                    json!({ "approved": x })
                }
                Err(e) => json!({"rejected": js(&e.information())}),
            }
        }),
        inputs: Box::new(move || json!([js(&b.meta), js(&b.request), js(&b.offer), js(&b.doc)])),
        witness,
    });
    let q = std::sync::Arc::new(j.request);
    let q2 = q.clone();
    out.push(Op {
        label: "pre-evaluate",
        family: None,
        now: s.now,
        call: Box::new(move || match CredentialIssuer::pre_evaluate_credential_request(&q) {
            Ok(v) => json!({"approved": js(&v)}),
            Err(e) => json!({"rejected": js(&e.information())}),
        }),
        inputs: Box::new(move || js(&*q2)),
        witness: w2,
    });
}

fn proof_op(s: &Scn, out: &mut Vec<Op>) {
    let Some(jwt) = s.jwt() else { return };
    let Ok(p) = ProofJwt::from_str(&jwt) else { return };
    let doc: Option<openid4vci::Document> = s.doc.as_ref().and_then(|d| api::read(d).ok());
    let p = std::sync::Arc::new(p);
    let p2 = p.clone();
    let w = s.input();
    out.push(Op {
        label: "proof",
        family: None,
        now: s.now,
        call: Box::new(move || {
            let e = |x: Result<Value, JwtError>| x.unwrap_or_else(|e| js(&e.information()));
            json!({"rejected": [
                p.validate().map_or_else(|e| js(&e.information()), |()| json!("ok")),
                e(p.verify().map(|()| json!("ok"))),
                e(p.extract_did().map(|d| json!(d))),
                e(p.extract_key_and_alg(doc.as_ref()).map(|(k, a)| json!([k, api::alg_name(&a)]))),
                e(p.to_signable_message().map(|m| json!(m))),
                e(p.extract_signature().map(|m| json!(m))),
                e(p.check_nonce(Some("n".into())).map(|()| json!("ok"))),
                e(p.check_iss(None).map(|()| json!("ok"))),
                e(p.check_aud("a").map(|()| json!("ok"))),
                ProofJwt::from_str(&jwt).map_or_else(|e| js(&e.information()), |p| js(&p)),
            ]})
        }),
        inputs: Box::new(move || js(&*p2)),
        witness: w,
    });
}

fn token_op(c: &TokenCase, opts: bool, now: i128, family: Option<&'static str>, out: &mut Vec<Op>) {
    let (Ok(req), Ok(o)) = (api::token_request(c.code.as_deref(), c.pin), api::token_opts(opts, c.expected_pin)) else { return };
    let req = std::sync::Arc::new(req);
    let r2 = req.clone();
    let offer = c.offer.clone();
    out.push(Op {
        label: "evaluate token request",
        family,
        now,
        call: Box::new(move || {
            let x = AccessToken::evaluate_access_token_request(&req, offer.as_ref().map(build::offer), o.clone());
            let v = js(&x.to_return_object());
            json!({ if x.is_ok() { "approved" } else { "rejected" }: v })
        }),
        inputs: Box::new(move || js(&*r2)),
        witness: tokens::witness(c, &Value::Null),
    });
}

/// The offer link with the offer decoded: the members of maps travel in no particular order.
fn link(u: &str) -> Value {
    let Some((head, tail)) = u.rsplit_once("credential_offer=") else { return json!(u) };
    match issuer::percent_decode(tail).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        Some(v) => json!([head, oracle::norm(&v)]),
        None => json!(u),
    }
}

fn offer_op(c: &OfferCase, now: i128, family: Option<&'static str>, out: &mut Vec<Op>) {
    let meta = std::sync::Arc::new(build::metadata(&c.meta));
    let m2 = meta.clone();
    let (auth, pre) = (c.auth.as_ref().and_then(build::auth_flow), c.pre.as_ref().and_then(build::pre_flow));
    let (creds, endpoint) = (json!(c.creds), c.endpoint.clone());
    out.push(Op {
        label: "create offer",
        family,
        now,
        call: Box::new(move || match CredentialIssuer::create_offer(&meta, build::credential_or_ids(&creds), &endpoint, &auth, &pre) {
            Ok((o, u)) => json!({"approved": [js(&o), link(&u)]}),
            Err(e) => json!({"rejected": js(&e.information())}),
        }),
        inputs: Box::new(move || js(&*m2)),
        witness: c.json(),
    });
}

fn resolve_op(meta: &Value, query: &str, now: i128, family: Option<&'static str>, out: &mut Vec<Op>) {
    let m = std::sync::Arc::new(build::metadata(meta));
    let m2 = m.clone();
    let q = CredentialOrId::CredentialId(query.to_owned());
    out.push(Op {
        label: "resolve",
        family,
        now,
        call: Box::new(move || match q.resolve(&m) {
            Ok(p) => json!({"approved": js(&p)}),
            Err(e) => json!({"rejected": js(&e.information())}),
        }),
        inputs: Box::new(move || js(&*m2)),
        witness: json!({"metadata": meta, "id": query}),
    });
}

fn respond_op(r: &mut Rng, s: &Scn, out: &mut Vec<Op>) {
    let Ok(req) = api::read::<openid4vci::types::credential_request::CredentialRequest>(&s.request()) else { return };
    let supplied = match r.below(3) {
        0 => json!({ "token": ident(r) }),
        1 => Value::Null,
        _ => json!({ "credential": profile(r) }),
    };
    let nonce = if r.flip() { Some((ident(r), r.u64() as u32)) } else { None };
    let req = std::sync::Arc::new(req);
    let r2 = req.clone();
    let witness = json!({"request": s.request(), "supplied": supplied, "nonce": nonce});
    out.push(Op {
        label: "credential response",
        family: None,
        now: s.now,
        call: Box::new(move || {
            let x = match (supplied["token"].as_str(), &supplied["credential"]) {
                (Some(t), _) => Some(CredentialOrAcceptanceToken::AcceptanceToken(t.to_owned())),
                (None, Value::Null) => None,
                (None, c) => Some(CredentialOrAcceptanceToken::Credential(build::profile(c))),
            };
            let n = nonce.as_ref().map(|(c, e)| CNonce { c_nonce: c.clone(), c_nonce_expires_in: Some(*e) });
            match CredentialIssuer::create_credential_success_response(&req, x, n) {
                Ok((v, at)) => {
                    let mut v = js(&v);
                    if let Some(d) = issuer::decode(&v["credential"]) {
                        v["credential"] = oracle::norm(&d);
                    }
                    json!({"approved": [v, if clock::ENABLED { at.to_rfc3339() } else { String::new() }]})
                }
                Err(e) => json!({"rejected": js(&e.information())}),
            }
        }),
        inputs: Box::new(move || js(&*r2)),
        witness,
    });
}

fn info_op(r: &mut Rng, now: i128, out: &mut Vec<Op>) {
    enum E {
        V(ValidationError),
        J(JwtError),
        C(CredentialIssuerError),
        A(AccessTokenError),
    }
    let e = match r.below(4) {
        0 => E::V(errors::gen_validation(r).0),
        1 => E::J(errors::gen_jwt(r).0),
        2 => E::C(errors::gen_ci(r).0),
        _ => E::A(errors::gen_at(r, 2).0),
    };
    let w = json!(match &e {
        E::V(x) => format!("{x:?}"),
        E::J(x) => format!("{x:?}"),
        E::C(x) => format!("{x:?}"),
        E::A(x) => format!("{x:?}"),
    });
    let e = std::sync::Arc::new(e);
    let e2 = e.clone();
    out.push(Op {
        label: "error information",
        family: None,
        now,
        call: Box::new(move || {
            let i = match &*e {
                E::V(x) => x.information(),
                E::J(x) => x.information(),
                E::C(x) => x.information(),
                E::A(x) => x.information(),
            };
            json!({"rejected": [js(&i), i.to_string()]})
        }),
        inputs: Box::new(move || {
            json!(match &*e2 {
                E::V(x) => format!("{x:?}"),
                E::J(x) => format!("{x:?}"),
                E::C(x) => format!("{x:?}"),
                E::A(x) => format!("{x:?}"),
            })
        }),
        witness: w,
    });
}

fn small_ops(r: &mut Rng, now: i128, out: &mut Vec<Op>) {
    let a = (ident(r), ident(r), lifetime(r), text(r));
    out.push(Op {
        label: "token response",
        family: None,
        now,
        witness: json!(a),
        call: Box::new(move || {
            let a = a.clone();
            match AccessToken::create_access_token_success_response(a.0, AccessTokenType::Bearer, Some(a.2), Some(a.3), Some(a.1), None, None, Some(5)) {
                Ok((v, at)) => json!({"approved": [js(&v), if clock::ENABLED { at.to_rfc3339() } else { String::new() }]}),
                Err(e) => json!({"rejected": js(&e.information())}),
            }
        }),
        inputs: Box::new(|| Value::Null),
    });
    let (d, u, x) = (text(r), text(r), json!({ "x": any_json(r, 2) }));
    out.push(Op {
        label: "error response",
        family: None,
        now,
        witness: json!([d, u, x]),
        call: Box::new(move || {
            match AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, Some(d.clone()), Some(u.clone()), Some(x.clone())) {
                Ok(v) => json!({"approved": js(&v)}),
                Err(e) => json!({"rejected": js(&e.information())}),
            }
        }),
        inputs: Box::new(|| Value::Null),
    });
}

/// A pool of operations, most of them closely related to others in it.
pub fn pool(r: &mut Rng, small: bool) -> Vec<Op> {
    let mut v = vec![];
    let bases = if small { 1 } else { 2 };
    for _ in 0..bases {
        let s = honest(r);
        eval_ops(&s, None, &mut v);
        proof_op(&s, &mut v);
        respond_op(r, &s, &mut v);
        // the same request, later than everything in it allows
        let mut later = s.clone();
        later.now += *r.pick(&[1, S, 3600 * S, 40_000_000_000 * S]);
        eval_ops(&later, Some("family: same proof, later"), &mut v);
        let mut earlier = s.clone();
        earlier.now = (earlier.now - *r.pick(&[S, 3600 * S, 1_000_000_000 * S])).max(0);
        eval_ops(&earlier, None, &mut v);
        // the same key id in other documents (another key, no such method)
        if let Some(kid) = s.kid() {
            let d = oracle::did_of(&kid);
            let rest = kid[d.len()..].to_owned();
            for target in [Some(true), Some(true), Some(false), None] {
                let mut t = s.clone();
                t.doc = Some(did_document(r, &d, &rest, target));
                eval_ops(&t, Some("family: same key id, other document"), &mut v);
            }
            let mut t = s.clone();
            t.doc = None;
            eval_ops(&t, None, &mut v);
        }
        // the nonce again, in another proof; another nonce, in the same
        let other = honest(r);
        if let (Some(p), Some(q)) = (s.proof.clone(), other.proof.clone()) {
            let mut t = s.clone();
            let mut np = q;
            for k in ["nonce", "aud", "iss"] {
                match p.body.iter().find(|(n, _)| n == k) {
                    Some((_, x)) => np.set_body(k, x.clone()),
                    None => np.unset_body(k),
                }
            }
            for k in ["nbf", "exp"] {
                np.unset_body(k);
            }
            if let Some((_, kid)) = p.header.iter().find(|(n, _)| n == "kid") {
                np.set_header("kid", kid.clone());
            }
            t.proof = Some(np);
            eval_ops(&t, Some("family: same nonce, other proof"), &mut v);
        }
        let mut t = s.clone();
        evalx::mutate(r, &mut t, Cond::Nonce);
        eval_ops(&t, None, &mut v);
        let mut t = s.clone();
        evalx::mutate(r, &mut t, Cond::Aud);
        eval_ops(&t, None, &mut v);
        let mut t = s.clone();
        evalx::mutate(r, &mut t, Cond::Iss);
        eval_ops(&t, None, &mut v);
        // the same issuer with other metadata
        let mut t = s.clone();
        let issuer = s.meta["credential_issuer"].clone();
        t.meta = metadata(r);
        t.meta["credential_issuer"] = issuer.clone();
        eval_ops(&t, Some("family: same issuer, other metadata"), &mut v);
        let mut t = s.clone();
        evalx::mutate(r, &mut t, Cond::MetaDup);
        eval_ops(&t, Some("family: same issuer, other metadata"), &mut v);
        let mut t = s.clone();
        forms::break_form(r, &mut t);
        eval_ops(&t, None, &mut v);
        respond_op(r, &t, &mut v);
        // ids that name another entry in another version of the metadata
        let ids = ids_of(&s.meta);
        if let Some(id) = ids.first() {
            resolve_op(&s.meta, id, s.now, None, &mut v);
            let mut m = s.meta.clone();
            for e in m["credentials_supported"].as_array_mut().into_iter().flatten() {
                if e["id"].as_str() == Some(id) {
                    *e = supported(r, Some(id.clone()));
                }
            }
            resolve_op(&m, id, s.now, Some("family: same issuer, other metadata"), &mut v);
            m["credentials_supported"] = json!([]);
            resolve_op(&m, id, s.now, None, &mut v);
        } else {
            let q = text(r);
            resolve_op(&s.meta, &q, s.now, None, &mut v);
        }
        // ids at the edge: nothing, blanks, one long, all of them known
        let mut m = metadata(r);
        let long = "x".repeat(300);
        let edge = ["", " ", "0", "null", long.as_str()];
        m["credentials_supported"] = edge.iter().map(|id| supported(r, Some((*id).to_owned()))).collect();
        for id in edge {
            resolve_op(&m, id, s.now, None, &mut v);
        }
        let empty = offer("", vec![json!("")], None, Some(json!({"pre-authorized_code": ""})));
        let t = TokenCase { code: Some(String::new()), pin: None, offer: Some(empty), expected_pin: None };
        token_op(&t, true, s.now, None, &mut v);
        token_op(&t, false, s.now, None, &mut v);
        // an offer, then one of the same issuer with other contents
        let c = issuer::gen_offer(r, false);
        offer_op(&c, s.now, None, &mut v);
        let mut d = issuer::gen_offer(r, r.clone().flip());
        d.meta["credential_issuer"] = c.meta["credential_issuer"].clone();
        offer_op(&d, s.now, Some("family: same issuer, other metadata"), &mut v);
        // many wrong codes and PINs before the right ones, and after
        let code = ident(r);
        let pin = r.u64() % 100_000_000;
        let offer = offer("https://issuer.example.com", vec![json!("x")], None, Some(json!({"pre-authorized_code": code, "user_pin_required": true})));
        let good = TokenCase { code: Some(code.clone()), pin: Some(pin), offer: Some(offer), expected_pin: Some(pin) };
        for k in 0..if small { 2 } else { 5 } {
            let mut bad = good.clone();
            match k % 3 {
                0 => bad.pin = Some(pin ^ 1),
                1 => bad.code = Some(near(r, &code).0),
                _ => bad.pin = None,
            }
            token_op(&bad, true, s.now, None, &mut v);
        }
        token_op(&good, true, s.now, Some("family: wrong tokens, then the right one"), &mut v);
        let (c, _, o) = tokens::gen_case(r, true);
        token_op(&c, o, s.now, None, &mut v);
        info_op(r, s.now, &mut v);
        info_op(r, s.now, &mut v);
        small_ops(r, s.now, &mut v);
        // and some that are refused for whatever there is
        for _ in 0..if small { 3 } else { 2 } {
            wild(r, &mut v);
        }
    }
    v
}

/// A few operations refused for any of the reasons there are.
fn wild(r: &mut Rng, v: &mut Vec<Op>) {
    let mut t = evalx::scenario(r, evalx::ALL);
    match r.below(6) {
        0 => forms::break_form(r, &mut t),
        1 | 2 => {
            let (k, v) = match r.below(4) {
                0 => ("jwk", evalx::jwk_value(r)),
                1 => ("x5c", evalx::x5c_value(r)),
                2 => {
                    let d = did(r);
                    ("kid", json!(evalx::non_did_kid(r, &d, "#key-1")))
                }
                _ => ("kid", json!(text(r))),
            };
            if let Some(p) = t.proof.as_mut() {
                for n in ["kid", "jwk", "x5c"] {
                    p.unset_header(n);
                }
                if !r.one_in(8) {
                    p.set_header(k, v);
                }
            }
        }
        3 => t.raw = Some(hostile::hostile_jwt(r)),
        _ => {}
    }
    eval_ops(&t, None, v);
    proof_op(&t, v);
    let pins = r.flip();
    let (c, _, o) = tokens::gen_case(r, pins);
    token_op(&c, o, t.now, None, v);
    let c = issuer::gen_offer(r, true);
    offer_op(&c, t.now, None, v);
    info_op(r, t.now, v);
}

// ------------------------------------------------------------------ C24

fn case_stateless(ctx: &mut Ctx, r: &mut Rng) {
    let ops = pool(r, false);
    let n = ops.len();
    let before: Vec<Value> = ops.iter().map(|o| (o.inputs)()).collect();
    let first: Vec<Value> = ops.iter().map(Op::answer).collect();
    ctx.events += n as u64;
    for (o, a) in ops.iter().zip(&first) {
        ctx.class(&format!("operation: {}", o.label));
        ctx.class(if a.get("approved").is_some() { "answer: approved" } else { "answer: rejected" });
        if let Some(f) = o.family {
            ctx.class(f);
        }
        ctx.decided(&(o.label, o.witness.to_string(), a.to_string()), true);
    }
    let differ = |ctx: &mut Ctx, i: usize, a: &Value, how: &str| {
        if *a != first[i] {
            ctx.violation(
                format!("{} answers differently {how}", ops[i].label),
                json!({"operation": ops[i].label, "input": ops[i].witness, "first": first[i], "then": a, "pool": ops.iter().map(|o| o.label).collect::<Vec<_>>()}),
            );
        }
    };
    // again at once, and the whole pool in other orders
    for i in 0..n {
        let a = ops[i].answer();
        let b = ops[i].answer();
        differ(ctx, i, &a, "after other calls");
        differ(ctx, i, &b, "when repeated at once");
        ctx.events += 2;
        ctx.class("repeated at once");
    }
    let mut order: Vec<usize> = (0..n).collect();
    for _ in 0..2 {
        r.shuffle(&mut order);
        for &i in &order {
            let a = ops[i].answer();
            differ(ctx, i, &a, "in another order of calls");
            ctx.events += 1;
            ctx.class("repeated in another order");
        }
    }
    // concurrently, every thread in its own order
    let barrier = Barrier::new(4);
    let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
    let got: Vec<Vec<(usize, Value)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (ops, barrier) = (&ops, &barrier);
                s.spawn(move || {
                    let mut order: Vec<usize> = (0..ops.len()).collect();
                    Rng::new(*seed).shuffle(&mut order);
                    barrier.wait();
                    order.into_iter().map(|i| (i, ops[i].answer())).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (i, a) in got.iter().flatten() {
        differ(ctx, *i, a, "when called concurrently");
        ctx.events += 1;
        ctx.class("repeated concurrently");
    }
    for (i, o) in ops.iter().enumerate() {
        ctx.class("inputs compared");
        ctx.check((o.inputs)() == before[i], || format!("{} changed its input", o.label), || json!({"input": o.witness, "before": before[i], "after": (o.inputs)()}));
    }
}

const POOL_SEED: &str = "C24-process";

/// `verdicts <seed> <pool> <order>`: the answers of a pool in a fresh process, as hashes by position.
/// `order`: `f` forwards, `b` backwards, or one position.
pub fn verdicts(args: &[String]) -> i32 {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok());
    let (Some(seed), Some(index)) = (n(0), n(1)) else { return 2 };
    let ops = pool(&mut Rng::new(seed_for(seed, POOL_SEED, index)), false);
    let order: Vec<usize> = match args.get(2).map(String::as_str) {
        Some("f") => (0..ops.len()).collect(),
        Some("b") => (0..ops.len()).rev().collect(),
        Some(p) => p.parse::<usize>().ok().filter(|p| *p < ops.len()).into_iter().collect(),
        None => return 2,
    };
    let any = std::env::var("VMON_ANY_VARIABLE").ok();
    ambient::answer_with(any.as_deref());
    let out: Vec<Value> = order.into_iter().map(|i| json!([i, hash_of(&ops[i].answer().to_string())])).collect();
    println!("{}", json!(out));
    0
}

/// Environments that no answer may depend on.
const ENVIRONMENTS: &[&[(&str, &str)]] = &[
    &[],
    &[("TZ", "Pacific/Kiritimati"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
    &[("TZ", "America/Los_Angeles"), ("LANG", "C"), ("HOME", "/nonexistent"), ("USER", "nobody")],
    // whatever variable is asked for has this value
    &[("VMON_ANY_VARIABLE", "1")],
    &[("VMON_ANY_VARIABLE", "3600"), ("TZ", "UTC")],
    &[("VMON_ANY_VARIABLE", "true")],
    &[("TZ", ":/nonexistent"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("CI", "true")],
];

fn fresh(seed: u64, index: u64, order: &str, env: &[(&str, &str)]) -> Option<Vec<(usize, u64)>> {
    let exe = std::env::current_exe().ok()?;
    let out = Command::new(exe)
        .args(["verdicts", &seed.to_string(), &index.to_string(), order])
        .envs(env.iter().copied())
        .current_dir(if env.is_empty() { "/tmp" } else { "/" })
        .stderr(Stdio::null())
        .output()
        .ok()?;
    let v: Value = serde_json::from_slice(&out.stdout).ok()?;
    v.as_array()?.iter().map(|x| Some((x[0].as_u64()? as usize, x[1].as_u64()?))).collect()
}

fn processes(ctx: &mut Ctx) {
    let (pools, singles) = if ctx.thorough { (40u64, 600usize) } else { (6, 60) };
    let mut work: Vec<(u64, String, usize)> = vec![];
    let mut base: Vec<(Vec<u64>, Vec<(&'static str, Value)>)> = vec![];
    for p in 0..pools {
        let ops = pool(&mut Rng::new(seed_for(ctx.seed, POOL_SEED, p)), false);
        // here after all the history of this process
        let a: Vec<u64> = ops.iter().map(|o| hash_of(&o.answer().to_string())).collect();
        for e in 0..ENVIRONMENTS.len() {
            work.push((p, "f".into(), e));
            work.push((p, "b".into(), e));
        }
        let mut r = Rng::new(seed_for(ctx.seed, "C24-single", p));
        for k in 0..singles / pools as usize {
            work.push((p, r.below(ops.len()).to_string(), k % ENVIRONMENTS.len()));
        }
        base.push((a, ops.into_iter().map(|o| (o.label, o.witness)).collect()));
    }
    let next = AtomicUsize::new(0);
    let seed = ctx.seed;
    let results: Vec<(usize, Option<Vec<(usize, u64)>>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                let (next, work) = (&next, &work);
                s.spawn(move || {
                    let mut v = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some((p, o, e)) = work.get(i) else { return v };
                        v.push((i, fresh(seed, *p, o, ENVIRONMENTS[*e])));
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    for (i, got) in results {
        let (p, order, e) = &work[i];
        let Some(got) = got else {
            ctx.problem("a fresh process gave no answers");
            continue;
        };
        ctx.class("repeated in a fresh process");
        for (k, h) in got {
            ctx.events += 1;
            let (want, what) = (&base[*p as usize].0[k], &base[*p as usize].1[k]);
            ctx.check(
                h == *want,
                || format!("{} answers differently in a fresh process (order {order}, environment {:?})", what.0, ENVIRONMENTS[*e]),
                || json!({"operation": what.0, "input": what.1, "pool": p, "position": k}),
            );
        }
    }
    // data races
    let rounds = if ctx.thorough { "60" } else { "4" };
    let runs: Vec<Vec<String>> =
        (0..if ctx.thorough { 4 } else { 2 }).map(|k| vec!["race".into(), (ctx.seed + k * 1000).to_string(), rounds.into(), "8".into()]).collect();
    instrument(ctx, "ThreadSanitizer", "tsan", &runs, &["ThreadSanitizer: data race", "WARNING: ThreadSanitizer"]);
}

/// `race <seed> <rounds> <threads>`: the pool from many threads at once, for a race detector.
pub fn race(args: &[String]) -> i32 {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let (seed, rounds, threads) = (n(0), n(1), n(2) as usize);
    let mut events = 0u64;
    for k in 0..rounds {
        let mut r = Rng::new(seed_for(seed, "race", k));
        let ops = pool(&mut r, false);
        let barrier = Barrier::new(threads);
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (ops, barrier, done) = (&ops, &barrier, &done);
                s.spawn(move || {
                    let mut order: Vec<usize> = (0..ops.len()).collect();
                    Rng::new(seed_for(seed, "race-order", k * 64 + t as u64)).shuffle(&mut order);
                    barrier.wait();
                    for i in order {
                        std::hint::black_box(ops[i].answer());
                        done.fetch_add(1, Ordering::Relaxed);
                        if i % 7 == t % 7 {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        events += done.into_inner() as u64;
        // the same cases of other properties, and in every thread another order
        let cases: Vec<u64> = (0..12).map(|_| r.u64()).collect();
        let barrier = Barrier::new(threads);
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (cases, barrier, done) = (&cases, &barrier, &done);
                s.spawn(move || {
                    let mut cases = cases.clone();
                    Rng::new(seed_for(seed, "race-cases", k * 64 + t as u64)).shuffle(&mut cases);
                    barrier.wait();
                    for c in cases {
                        let b = crate::borrowed(&mut Rng::new(c), seed);
                        done.fetch_add(b.events as usize, Ordering::Relaxed);
                    }
                });
            }
        });
        events += done.into_inner() as u64;
    }
    println!("{}", json!({"events": events, "distinct": [], "classes": {}, "violations": []}));
    0
}

// ------------------------------------------------------------------ C23

fn utf8(ctx: &mut Ctx, s: &str, what: &str) {
    ctx.class("texts checked for UTF-8");
    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
        ctx.violation(format!("{what} is a text that is not UTF-8"), json!(s.as_bytes()));
    }
}

/// Read the code of errors wherever an error can be stored.
fn places<E, const N: usize>(ctx: &mut Ctx, mut gen: impl FnMut() -> E, info: impl Fn(&E) -> openid4vci::error::ErrorInformation, seen: &mut std::collections::BTreeSet<u32>) {
    #[repr(C)]
    struct Odd<E> {
        a: u8,
        e: E,
        b: u8,
    }
    let mut one = |ctx: &mut Ctx, e: &E, class: &str| {
        ctx.events += 1;
        ctx.class(class);
        let i = info(e);
        seen.insert(i.code);
        utf8(ctx, &i.name, "an error name");
        utf8(ctx, &i.description, "an error description");
        let t = i.to_string();
        utf8(ctx, &t, "an error");
    };
    for _ in 0..N {
        let e = gen();
        one(ctx, &e, "error variant read on the stack");
        let b = Box::new(gen());
        one(ctx, &b, "error variant read on the heap");
        let v: Vec<E> = (0..3).map(|_| gen()).collect();
        for e in &v {
            one(ctx, e, "error variant read in a vector");
        }
        let x: Result<(), E> = Err(gen());
        if let Err(e) = &x {
            one(ctx, e, "error variant read in a result");
        }
        let o = Box::new(Odd { a: 1, e: gen(), b: 2 });
        one(ctx, &o.e, "error variant read at an odd offset");
        std::hint::black_box((o.a, o.b));
    }
}

fn error_places(ctx: &mut Ctx, r: &mut Rng, rounds: usize) {
    let mut seen = std::collections::BTreeSet::new();
    // until every documented code was read (bounded)
    for k in 0..400 {
        places::<_, 1>(ctx, || errors::gen_validation(r).0, ValidationError::information, &mut seen);
        places::<_, 1>(ctx, || errors::gen_jwt(r).0, JwtError::information, &mut seen);
        places::<_, 1>(ctx, || errors::gen_ci(r).0, CredentialIssuerError::information, &mut seen);
        places::<_, 1>(ctx, || errors::gen_at(r, 2).0, AccessTokenError::information, &mut seen);
        if k + 1 >= rounds && seen.len() >= 40 {
            break;
        }
    }
    if seen.len() >= 40 {
        ctx.class("all 40 documented codes read");
    }
}

// ---- the workload for Miri: prepared by a fast process, so that the interpreter spends its time in the library

/// Seeds that give every error variant once, with short contents.
fn variant_seeds() -> Vec<Value> {
    let mut best: std::collections::BTreeMap<(u8, u32), (usize, u64)> = std::collections::BTreeMap::new();
    for seed in 0..20_000u64 {
        let f = (seed % 4) as u8;
        let mut r = Rng::new(seed);
        let (code, len) = match f {
            0 => {
                let e = errors::gen_validation(&mut r).0;
                (e.information().code, format!("{e:?}").len())
            }
            1 => {
                let e = errors::gen_jwt(&mut r).0;
                (e.information().code, format!("{e:?}").len())
            }
            2 => {
                let e = errors::gen_ci(&mut r).0;
                (e.information().code, format!("{e:?}").len())
            }
            _ => {
                let e = errors::gen_at(&mut r, 1).0;
                (e.information().code, format!("{e:?}").len())
            }
        };
        let x = best.entry((f, code)).or_insert((usize::MAX, 0));
        if len < x.0 {
            *x = (len, seed);
        }
    }
    best.into_iter().take(80).map(|((f, _), (_, seed))| json!({"kind": "error", "family": f, "seed": seed})).collect()
}

/// Inputs of bounded size for every operation.
fn prepare(seed: u64, lines: usize) -> Vec<Value> {
    let mut v = variant_seeds();
    let mut i = 0;
    while v.len() < lines && i < 100_000 {
        let mut r = Rng::new(seed_for(seed, "C23-lines", i));
        i += 1;
        let x = match i % 8 {
            0 => {
                let s = honest(&mut r);
                // far from every limit: there is no virtual clock under Miri
                json!({"kind": "eval", "meta": s.meta, "request": s.request(), "offer": s.offer, "doc": s.doc, "opts": s.opts})
            }
            1..=3 => {
                let s = evalx::scenario(&mut r, evalx::ALL);
                json!({"kind": "eval", "meta": s.meta, "request": s.request(), "offer": s.offer, "doc": s.doc, "opts": s.opts})
            }
            4 => json!({"kind": "proof", "jwt": hostile::hostile_jwt(&mut r)}),
            5 => {
                let (c, _, o) = tokens::gen_case(&mut r, true);
                json!({"kind": "token", "code": c.code, "pin": c.pin, "offer": c.offer, "expected": c.expected_pin, "options": o})
            }
            6 => {
                let flag = r.flip();
                let c = issuer::gen_offer(&mut r, flag);
                json!({"kind": "offer", "case": c.json()})
            }
            _ => {
                let s = honest(&mut r);
                let c = profile(&mut r);
                json!({"kind": "respond", "request": s.request(), "credential": if r.one_in(3) { Value::Null } else { c }})
            }
        };
        if x.to_string().len() < 3000 {
            v.push(x);
        }
    }
    v
}

fn light(ctx: &mut Ctx, v: &Value) {
    fn look<T: serde::Serialize>(ctx: &mut Ctx, x: &T) {
        ctx.events += 1;
        let t = serde_json::to_string(x).unwrap_or_default();
        utf8(ctx, &t, "a returned value");
    }
    let opt = |k: &str| v.get(k).filter(|x| !x.is_null());
    match v["kind"].as_str().unwrap_or("") {
        "error" => {
            let seed = v["seed"].as_u64().unwrap_or(0);
            let seen = &mut std::collections::BTreeSet::new();
            match v["family"].as_u64() {
                Some(0) => places::<_, 1>(ctx, || errors::gen_validation(&mut Rng::new(seed)).0, ValidationError::information, seen),
                Some(1) => places::<_, 1>(ctx, || errors::gen_jwt(&mut Rng::new(seed)).0, JwtError::information, seen),
                Some(2) => places::<_, 1>(ctx, || errors::gen_ci(&mut Rng::new(seed)).0, CredentialIssuerError::information, seen),
                _ => places::<_, 1>(ctx, || errors::gen_at(&mut Rng::new(seed), 1).0, AccessTokenError::information, seen),
            }
            for c in seen.iter() {
                ctx.class(&format!("Miri: code {c} read"));
            }
        }
        "eval" => {
            let Ok(i) = api::read_eval(&v["meta"], &v["request"], opt("offer"), false, opt("doc"), opt("opts")) else {
                ctx.class("Miri: unreadable");
                return;
            };
            let r = CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), None, i.doc.as_ref(), i.opts.clone());
            ctx.class(if r.is_ok() { "Miri: evaluation approved" } else { "Miri: evaluation rejected" });
            match &r {
                Ok(x) => look(ctx, x),
                Err(e) => look(ctx, &e.information()),
            }
            match CredentialIssuer::pre_evaluate_credential_request(&i.request) {
                Ok(x) => look(ctx, &x),
                Err(e) => look(ctx, &e.information()),
            }
        }
        "proof" => {
            let jwt = v["jwt"].as_str().unwrap_or("");
            match ProofJwt::from_str(jwt) {
                Err(e) => look(ctx, &e.information()),
                Ok(p) => {
                    ctx.class("Miri: proof parsed");
                    look(ctx, &p.validate().map_err(|e| e.information()).err());
                    look(ctx, &p.verify().map_err(|e| e.information()).err());
                    look(ctx, &p.extract_did().map_err(|e| e.information()).err());
                    look(ctx, &p.extract_key_and_alg(None).map_err(|e| e.information()).err());
                    look(ctx, &p.to_signable_message().unwrap_or_default().len());
                    look(ctx, &p.extract_signature().unwrap_or_default().len());
                    look(ctx, &p.check_nonce(None).map_err(|e| e.information()).err());
                    look(ctx, &p);
                }
            }
        }
        "token" => {
            let (Ok(q), Ok(o)) = (
                api::token_request(v["code"].as_str(), v["pin"].as_u64()),
                api::token_opts(v["options"].as_bool().unwrap_or(false), v["expected"].as_u64()),
            ) else {
                return;
            };
            look(ctx, &AccessToken::evaluate_access_token_request(&q, opt("offer").map(build::offer), o).to_return_object());
        }
        "offer" => {
            let c = &v["case"];
            let meta = build::metadata(&c["issuer_metadata"]);
            let r = CredentialIssuer::create_offer(
                &meta,
                build::credential_or_ids(&c["credentials"]),
                &c["endpoint"].as_str().map(str::to_owned),
                &build::auth_flow(&c["authorization_flow"]),
                &build::pre_flow(&c["pre_authorized_flow"]),
            );
            match &r {
                Ok((o, u)) => {
                    ctx.class("Miri: offer created");
                    utf8(ctx, u, "an offer link");
                    look(ctx, o);
                }
                Err(e) => look(ctx, &e.information()),
            }
        }
        _ => {
            let Ok(q) = api::read::<openid4vci::types::credential_request::CredentialRequest>(&v["request"]) else { return };
            let x = opt("credential").map(|c| CredentialOrAcceptanceToken::Credential(build::profile(c)));
            match CredentialIssuer::create_credential_success_response(&q, x, None) {
                Ok((v, _)) => {
                    ctx.class("Miri: credential response");
                    look(ctx, &v);
                }
                Err(e) => look(ctx, &e.information()),
            }
        }
    }
}

/// `light <file> <first> <stride>`
pub fn light_run(args: &[String]) -> i32 {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let Ok(text) = std::fs::read_to_string(&args[0]) else { return 2 };
    let mut ctx = Ctx::new("C23", 0, false);
    let t0 = std::time::Instant::now();
    for line in text.lines().skip(n(1)).step_by(n(2).max(1)) {
        if t0.elapsed().as_secs() > n(3) as u64 {
            ctx.class("Miri: stopped by the time limit");
            break;
        }
        let Ok(v) = serde_json::from_str::<Value>(line) else { return 2 };
        let _ = guarded(|| light(&mut ctx, &v));
    }
    let texts: Vec<Value> = ctx.violations.iter().map(|v| json!({"what": v.what, "witness": v.witness})).collect();
    println!("{}", json!({"events": ctx.events, "classes": ctx.classes, "distinct": [], "violations": texts}));
    0
}

/// `light-race <file> <threads>`: the same values used by several threads at once, under the interpreter's scheduler.
pub fn light_race(args: &[String]) -> i32 {
    let Ok(text) = std::fs::read_to_string(&args[0]) else { return 2 };
    let lines: Vec<Value> = text.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let threads = args.get(1).and_then(|s| s.parse::<usize>().ok()).unwrap_or(2);
    let events = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (lines, events) = (&lines, &events);
            s.spawn(move || {
                let mut ctx = Ctx::new("C23", 0, false);
                for k in 0..lines.len() {
                    light(&mut ctx, &lines[(k + t) % lines.len()]);
                }
                events.fetch_add(ctx.events as usize, Ordering::Relaxed);
            });
        }
    });
    println!("{}", json!({"events": events.into_inner(), "classes": {"Miri: threads": threads}, "distinct": [], "violations": []}));
    0
}

/// `exercise <seed> <first> <cases>`: the workload of C23, for a build under an instrument.
pub fn exercise(args: &[String]) -> i32 {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let (seed, first, cases) = (n(0), n(1), n(2));
    let mut ctx = Ctx::new("C23", seed, false);
    let mut r = Rng::new(seed_for(seed, "C23-errors", first));
    error_places(&mut ctx, &mut r, 40);
    let mine = std::mem::take(&mut ctx.violations);
    // the other monitors' judgements are theirs: here only the instrument and the texts count
    let mut work = Ctx::new("C22", seed, false);
    let t0 = std::time::Instant::now();
    for i in first..first + cases {
        if t0.elapsed().as_secs() > n(3) {
            ctx.class("stopped by the time limit");
            break;
        }
        let mut r = Rng::new(seed_for(seed, "C23", i));
        let _ = guarded(|| match i % 5 {
            0 | 1 => hostile::case_hostile(&mut work, &mut r),
            2 => {
                let b = crate::borrowed(&mut r, seed);
                work.events += b.events;
                work.class("case of another property");
                work.decided(&(b.from, b.case), true);
            }
            _ => {
                let mut ops = pool(&mut r, true);
                r.shuffle(&mut ops);
                ops.truncate(40);
                for o in &ops {
                    let a = o.answer();
                    work.events += 1;
                    work.decided(&(o.witness.to_string()), true);
                    utf8_value(&mut work, &a);
                }
            }
        });
        clock::real();
    }
    ctx.events += work.events;
    ctx.distinct.extend(&work.distinct);
    for (k, v) in work.classes {
        *ctx.classes.entry(k).or_insert(0) += v;
    }
    let texts: Vec<Value> = mine
        .iter()
        .chain(work.violations.iter().filter(|v| v.what.contains("not UTF-8")))
        .map(|v| json!({"what": v.what, "witness": v.witness}))
        .collect();
    println!(
        "{}",
        json!({"events": ctx.events, "classes": ctx.classes, "distinct": ctx.distinct.iter().take(200_000).collect::<Vec<_>>(), "violations": texts})
    );
    0
}

fn utf8_value(ctx: &mut Ctx, v: &Value) {
    match v {
        Value::String(s) => utf8(ctx, s, "a returned value"),
        Value::Array(a) => a.iter().for_each(|x| utf8_value(ctx, x)),
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            utf8(ctx, k, "a returned member name");
            utf8_value(ctx, x);
        }),
        _ => {}
    }
}

// ------------------------------------------------------------------ instruments

mod libc_signal {
    pub const ILL: i32 = 4;
    pub const BUS: i32 = 7;
    pub const SEGV: i32 = 11;
}

fn command(kind: &str) -> Option<Command> {
    let harness = root().join("harness");
    match kind {
        "plain" => Some(Command::new(std::env::current_exe().ok()?)),
        "asan" | "tsan" => {
            let exe = harness.join(format!("target-{kind}/x86_64-unknown-linux-gnu/debug/vmon"));
            if !exe.exists() {
                return None;
            }
            let mut c = Command::new(exe);
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77").env("TSAN_OPTIONS", "halt_on_error=0:exitcode=77:history_size=4");
            Some(c)
        }
        _ => {
            let mut c = Command::new("cargo");
            c.current_dir(&harness)
                .args(["miri", "run", "--offline", "-q", "--"])
                .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
                .env("CARGO_TARGET_DIR", harness.join("target-miri"))
                .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {}", &kind[4..]));
            Some(c)
        }
    }
}

/// Run the workload under an instrument, in parallel processes; a report of the instrument is a violation.
fn instrument(ctx: &mut Ctx, name: &str, kind: &str, runs: &[Vec<String>], reports: &[&str]) {
    let mut children = vec![];
    let dir = std::env::temp_dir().join(format!("vmon-{}-{}", kind.split(' ').next().unwrap_or(""), std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        ctx.problem("no scratch directory");
        return;
    }
    for (k, args) in runs.iter().enumerate() {
        let k2 = if kind.starts_with("miri") { format!("{kind} -Zmiri-seed={k}") } else { kind.to_owned() };
        let Some(mut c) = command(&k2) else {
            ctx.problem(format!("{name}: the instrumented build is missing"));
            return;
        };
        let (out, err) = (dir.join(format!("{k}.out")), dir.join(format!("{k}.err")));
        let child = (|| {
            c.args(args).stdout(std::fs::File::create(&out)?).stderr(std::fs::File::create(&err)?);
            c.spawn()
        })();
        match child {
            Ok(ch) => children.push((k, ch, out, err)),
            Err(e) => ctx.problem(format!("{name}: {e}")),
        }
    }
    let t0 = std::time::Instant::now();
    let limit = std::time::Duration::from_secs(if ctx.thorough { 780 } else { 400 });
    for (k, mut ch, out, err) in children {
        let status = loop {
            match ch.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed() > limit => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)),
                Err(_) => break None,
            }
        };
        let text = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
        let hit = reports.iter().find(|p| text.contains(**p));
        if let Some(h) = hit {
            let at = text.find(*h).unwrap_or(0);
            let excerpt: String = text[at..].chars().take(3000).collect();
            ctx.violation(
                format!("{name} reports: {}", excerpt.lines().next().unwrap_or("")),
                json!({"report": excerpt, "arguments": runs[k], "run again with": format!("{name} build of vmon")}),
            );
            continue;
        }
        let Some(status) = status else {
            ctx.problem(format!("{name}: the workload did not finish in time"));
            continue;
        };
        if matches!(status.signal(), Some(libc_signal::SEGV | libc_signal::BUS | libc_signal::ILL)) && !text.contains("overflowed its stack") {
            ctx.violation(
                format!("{name}: an invalid memory access ended the workload ({status})"),
                json!({"stderr": text.chars().take(2000).collect::<String>(), "arguments": runs[k]}),
            );
            continue;
        }
        let account = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(t.lines().last().unwrap_or("")).ok());
        let Some(v) = account.filter(|_| status.success()) else {
            let tail: String = text.lines().rev().take(5).collect::<Vec<_>>().join(" | ");
            ctx.problem(format!("{name}: the workload ended with {status}: {}", tail.chars().take(600).collect::<String>()));
            continue;
        };
        let n = v["events"].as_u64().unwrap_or(0);
        ctx.events += n;
        ctx.evaluations += n;
        *ctx.classes.entry(format!("{name}: library calls")).or_insert(0) += n;
        for (c, x) in v["classes"].as_object().into_iter().flatten() {
            if ctx.prop == "C23" {
                *ctx.classes.entry(c.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        ctx.distinct.extend(v["distinct"].as_array().into_iter().flatten().filter_map(Value::as_u64));
        for x in v["violations"].as_array().into_iter().flatten() {
            ctx.violation(format!("{} ({name} run)", x["what"].as_str().unwrap_or("")), x["witness"].clone());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

const PRECONDITION: &[&str] = &["unsafe precondition(s) violated"];
/// What the allocator says of a heap that was written over.
const HEAP: &[&str] = &["double free or corruption", "free(): ", "malloc(): ", "realloc(): ", "malloc_consolidate(): ", "corrupted size vs. prev_size", "munmap_chunk(): "];

fn memory(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let limit = if ctx.thorough { 600 } else { 150 };
    let runs = |each: u64, n: u64| -> Vec<Vec<String>> {
        (0..n).map(|k| vec!["exercise".into(), seed.to_string(), (k * each).to_string(), each.to_string(), limit.to_string()]).collect()
    };
    let (plain, asan, lines) = if ctx.thorough { (60_000, 12_000, 4_000) } else { (3_000, 600, 240) };
    instrument(ctx, "precondition checks", "plain", &runs(plain, 8), &[PRECONDITION[0], HEAP[0], HEAP[1], HEAP[2], HEAP[3], HEAP[4], HEAP[5], HEAP[6]]);
    instrument(ctx, "AddressSanitizer", "asan", &runs(asan, 8), &["ERROR: AddressSanitizer", "runtime error:", PRECONDITION[0]]);
    let dir = std::env::temp_dir().join(format!("vmon-lines-{}", std::process::id()));
    let all = prepare(seed, lines);
    let file = dir.join("lines");
    let few = dir.join("few");
    let text = |v: &[&Value]| v.iter().map(|x| format!("{x}\n")).collect::<String>();
    let races: Vec<&Value> = all.iter().filter(|v| v["kind"] != "error").take(if ctx.thorough { 40 } else { 6 }).chain(all.iter().take(3)).collect();
    let ok = std::fs::create_dir_all(&dir).is_ok()
        && std::fs::write(&file, text(&all.iter().collect::<Vec<_>>())).is_ok()
        && std::fs::write(&few, text(&races)).is_ok();
    if !ok {
        ctx.problem("no scratch directory");
        return;
    }
    let mut m: Vec<Vec<String>> = (0..7).map(|k| vec!["light".into(), file.display().to_string(), k.to_string(), "7".into(), limit.to_string()]).collect();
    m.push(vec!["light-race".into(), few.display().to_string(), "3".into()]);
    instrument(ctx, "Miri", "miri", &m, &["error: Undefined Behavior", "Data race detected"]);
    let _ = std::fs::remove_dir_all(&dir);
    ctx.sample(|| json!({"workload": "exercise", "processes": 8, "cases each": {"precondition checks": plain, "AddressSanitizer": asan}, "inputs under Miri": all.len()}));
}
