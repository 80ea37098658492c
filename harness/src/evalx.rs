//! Credential request evaluation: C03, C04, C05, C07, C08, C09, C10, C11 and C19.
use crate::api::{self, Approved, ErrView, EvalInputs, Outcome};
use crate::clock;
use crate::core::{Ctx, Rng};
use crate::forms;
use crate::gen::*;
use crate::issuer;
use crate::oracle::{self, analyse, same_json, Analysis, Cond};
use crate::tokens;
use crate::Def;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};
use std::collections::BTreeSet;

const RULE: &str = "one case = a full credential-request evaluation (issuer metadata, request with proof, offer, DID document, options, virtual instant): an honest scenario, mutated 0-3 times towards violating or just not violating one condition; the verdict and every returned value are compared with an independent model of the documented conditions; non-trivial = distinct combination of violated conditions, mutation and verdict-relevant values";

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C03",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c03,
            extra: None,
            required: &[
                "approved", "nonce expires exactly now: approved", "nonce expired 1 ns ago: rejected", "nonce expires in 1 ns: approved",
                "no options", "no c_nonce", "rejected: Nonce", "rejected: NonceExpired", "lifetime over 2^31 s: approved", "lifetime 0",
                "expiry beyond representable time",
            ],
            rule: RULE,
        },
        Def {
            id: "C04",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c04,
            extra: None,
            required: &[
                "approved", "rejected: Iss", "rejected: Aud", "approved: client id named", "approved: no client id, iss present, pre-authorized only",
                "rejected: no client id, iss present, both flows", "rejected: client id named, iss absent", "approved: offer of another issuer",
            ],
            rule: RULE,
        },
        Def {
            id: "C05",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c05,
            extra: None,
            required: &[
                "approved", "nbf exactly now: accepted", "nbf 1 ns ahead: rejected", "exp exactly now: rejected", "exp 1 ns ahead: accepted",
                "NumericDate", "fractional NumericDate", "verify accepted", "verify rejected", "rejected: NotYet", "rejected: Expired",
            ],
            rule: RULE,
        },
        Def {
            id: "C07",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c07,
            extra: None,
            required: &[
                "approved", "relative method id", "absolute method id", "method in verificationMethod", "method in authentication",
                "method in assertionMethod", "method in keyAgreement", "method in publicKey", "publicKeyJwk", "publicKeyBase58", "publicKeyMultibase", "publicKeyHex",
                "rejected: MethodAbsent", "rejected: KeyUnusable", "rejected: NoDoc", "rejected: NoKey", "rejected: KeyKind",
            ],
            rule: RULE,
        },
        Def {
            id: "C08",
            quick: 200_000,
            thorough: 1_000_000,
            case: case_c08,
            extra: None,
            required: &["approved", "signed", "unsigned", "stand-alone message", "stand-alone signature"],
            rule: RULE,
        },
        Def {
            id: "C09",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c09,
            extra: None,
            required: &[
                "did reported", "none: no proof", "none: no key reference", "rejected: KidNotDid", "rejected: KeyKind", "subject reported",
                "kid with path", "kid with query", "kid with fragment",
            ],
            rule: RULE,
        },
        Def {
            id: "C10",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c10,
            extra: None,
            required: &[
                "approved", "rejected: NoOffer", "rejected: AsMeta", "rejected: MetaDup", "rejected: NoProof", "format jwt_vc_json", "format jwt_vc_json-ld",
                "format ldp_vc", "format mso_mdoc",
            ],
            rule: RULE,
        },
        Def {
            id: "C11",
            quick: 320_000,
            thorough: 1_500_000,
            case: case_c11,
            extra: None,
            required: &["duplicate ids", "near-duplicate ids", "no ids", "several entries without id", "identical entries without id", "20 or more entries"],
            rule: "one case = issuer metadata with 0-30 entries whose ids are absent, distinct, nearly equal or duplicated at random positions; validated, used to create an offer and to evaluate an otherwise honest request; non-trivial = distinct id list",
        },
        Def {
            id: "C19",
            quick: 400_000,
            thorough: 2_000_000,
            case: case_c19,
            extra: None,
            required: &[
                "error 1", "error 103", "error 108", "error 109", "error 111", "error 112", "error 301", "error 302", "error 303", "error 304",
                "error 305", "error 306", "error 307", "error 315", "error 316", "error 314", "token error 402", "token error 403", "token error 404",
                "token error 405", "token error 406", "token error 407", "token error 409", "token error 400", "exactly one condition", "several conditions",
            ],
            rule: "one case = a token request, credential request, pre-evaluation, offer creation or response creation with 1-4 violated conditions; the error must name a condition that the independent model finds violated and every value it reports must be the one in the inputs; non-trivial = distinct error and violated set with the reported values",
        },
    ]
}

// ------------------------------------------------------------------ mutation

pub const ALL: &[Cond] = &[
    Cond::MetaDup, Cond::NoOffer, Cond::AsMeta, Cond::NonceExpired, Cond::NoProof, Cond::Form, Cond::NotYet, Cond::Expired, Cond::Nonce,
    Cond::Iss, Cond::Aud, Cond::KidNotDid, Cond::KeyKind, Cond::NoKey, Cond::NoDoc, Cond::MethodAbsent, Cond::KeyUnusable,
];

fn c_nonce_mut(s: &mut Scn) -> Option<&mut Value> {
    s.opts.as_mut().and_then(|o| o.get_mut("c_nonce")).filter(|c| c.is_object())
}

fn collect(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(x) => out.push(x.clone()),
        Value::Array(a) => a.iter().for_each(|x| collect(x, out)),
        Value::Object(o) => o.values().for_each(|x| collect(x, out)),
        _ => {}
    }
}

/// A string that occurs somewhere else in the scenario: what a check against the wrong value
/// would take for the right one.
fn coincidence(r: &mut Rng, s: &Scn) -> String {
    let mut p = vec![String::new()];
    for k in ["credential_issuer", "credential_endpoint", "authorization_server", "batch_credential_endpoint"] {
        collect(&s.meta[k], &mut p);
    }
    if let Some(o) = &s.offer {
        collect(o, &mut p);
    }
    if let Some(o) = &s.opts {
        collect(o, &mut p);
    }
    if let Some(q) = &s.proof {
        q.header.iter().chain(&q.body).for_each(|(_, v)| collect(v, &mut p));
        p.extend(q.sig.clone());
    }
    if let Some(k) = s.kid() {
        let d = oracle::did_of(&k);
        p.extend([d.clone(), d, k.rsplit('#').next().unwrap_or("").to_owned()]);
    }
    collect(&s.format["types"], &mut p);
    r.pick(&p).clone()
}

/// A sloppily similar value, or one that is right somewhere else.
fn wrong(r: &mut Rng, s: &mut Scn, v: &str) -> (String, &'static str) {
    if r.one_in(5) {
        let c = coincidence(r, s);
        if c != v {
            if r.one_in(3) {
                if let Some(p) = &mut s.proof {
                    p.set_body("sub", json!(c));
                }
            }
            return (c, "right elsewhere");
        }
    }
    near(r, v)
}

fn issuer_of(s: &Scn) -> String {
    s.meta["credential_issuer"].as_str().unwrap_or("").to_owned()
}

fn body_str(s: &Scn, k: &str) -> Option<String> {
    s.proof.as_ref()?.body.iter().find(|(n, _)| n == k)?.1.as_str().map(str::to_owned)
}

/// Move the c_nonce deadline to `now + d`.
fn nonce_deadline(r: &mut Rng, s: &mut Scn, d: i128) {
    let life = if r.flip() { lifetime(r) } else { *r.pick(&[0, 1, 300, 86_400]) };
    let created = s.now + d - i128::from(life) * S;
    let text = rfc3339(r, created);
    if let Some(c) = c_nonce_mut(s) {
        c["c_nonce_expires_in"] = json!(life);
        c["c_nonce_created_at"] = json!(text);
    }
}

fn grants(s: &mut Scn) -> Option<&mut serde_json::Map<String, Value>> {
    s.offer.as_mut().and_then(|o| o["grants"].as_object_mut())
}

pub fn set_client(s: &mut Scn, c: Option<&str>) {
    if s.opts.is_none() {
        s.opts = Some(json!({}));
    }
    if let Some(o) = s.opts.as_mut().and_then(Value::as_object_mut) {
        match c {
            Some(c) => o.insert("client_id".into(), json!(c)),
            None => o.remove("client_id"),
        };
    }
}

pub fn non_did_kid(r: &mut Rng, did: &str, rest: &str) -> String {
    match r.below(16) {
        0 => rest.to_owned(),
        1 => format!("DID:{}", &did[4..]),
        2 => format!("Did:{}{rest}", &did[4..]),
        3 => format!(" {did}{rest}"),
        4 => did.trim_start_matches("did:").to_owned() + rest,
        5 => String::new(),
        6 => url(r),
        7 => "key-1".to_owned(),
        8 => token(r, 43),
        9 => format!("xdid:{}{rest}", &did[4..]),
        10 => format!("did{}", &did[4..]),
        11 => format!("urn:{did}{rest}"),
        12 => format!("{rest}{did}"),
        13 => format!("di:{}{rest}", &did[4..]),
        14 => format!("did/{}{rest}", &did[4..]),
        _ => text(r),
    }
}

pub fn jwk_value(r: &mut Rng) -> Value {
    let x = b64(r.bytes(32));
    match r.below(4) {
        0 => json!({"kty": "EC", "crv": "P-256", "x": x, "y": b64(r.bytes(32))}),
        1 => json!({"kty": "OKP", "crv": "Ed25519", "x": x, "alg": "EdDSA"}),
        2 => json!({"kty": "RSA", "n": b64(r.bytes(64)), "e": "AQAB"}),
        _ => json!({"kty": "OKP", "crv": "Ed25519", "x": x}),
    }
}

pub fn x5c_value(r: &mut Rng) -> Value {
    let n = 1 + r.below(3);
    Value::Array((0..n).map(|_| json!(base64::Engine::encode(&base64::engine::general_purpose::STANDARD, r.bytes(48)))).collect())
}

/// Push the scenario towards (sometimes just short of) violating `c`.
pub fn mutate(r: &mut Rng, s: &mut Scn, c: Cond) {
    let now = s.now;
    match c {
        Cond::MetaDup => {
            let Some(a) = s.meta["credentials_supported"].as_array_mut() else { return };
            let n = a.len();
            if n == 0 || r.one_in(6) {
                let id = text(r);
                let x = supported(r, Some(id.clone()));
                let y = supported(r, Some(id));
                a.push(x);
                a.insert(0, y);
            } else {
                let i = r.below(n);
                let id = a[i]["id"].as_str().map_or_else(|| text(r), str::to_owned);
                a[i]["id"] = json!(id);
                let id2 = if r.one_in(4) { near(r, &id).0 } else { id };
                let e = supported(r, Some(id2));
                let at = r.below(n + 1);
                a.insert(at, e);
            }
            s.tag("metadata ids");
        }
        Cond::NoOffer => {
            s.offer = None;
            s.tag("no offer");
        }
        Cond::AsMeta => {
            s.as_meta = true;
            s.tag("authorization server metadata");
        }
        Cond::NonceExpired => {
            let d = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => -1,
                3 | 4 => slack(r),
                _ => -slack(r).abs().max(1),
            };
            nonce_deadline(r, s, d);
            if r.one_in(12) {
                // expiry beyond what an instant can represent
                let c0 = oracle::MAX_INSTANT - i128::from(r.range(0, 1000)) * S;
                if let Some(c) = c_nonce_mut(s) {
                    c["c_nonce_created_at"] = json!(dt(c0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true));
                    c["c_nonce_expires_in"] = json!(u32::MAX);
                }
                s.tag("expiry beyond representable time");
            }
            if r.one_in(12) {
                // odd creation instants: the epoch, the distant past, the future
                let c0 = *r.pick(&[0, 1, -S, -1, i128::from(u32::MAX) * S, 253_402_300_799 * S, -61_900_000_000 * S, now, now + 1, now + 86_400 * S]);
                let life = lifetime(r);
                if let Some(c) = c_nonce_mut(s) {
                    c["c_nonce_created_at"] = json!(dt(c0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true));
                    c["c_nonce_expires_in"] = json!(life);
                }
                s.tag("odd creation instant");
            }
            s.tag("nonce deadline");
        }
        Cond::NoProof => {
            s.proof = None;
            s.raw = None;
            s.tag("no proof");
        }
        Cond::Form => forms::break_form(r, s),
        Cond::NotYet | Cond::Expired => {
            let d = match r.below(7) {
                0 => 0,
                1 => 1,
                2 => -1,
                // as far away as a four-digit year can be
                3 if r.flip() => i128::from(r.range(-61_900_000_000, 253_402_300_799)) * S - now,
                _ => slack(r),
            };
            let k = if c == Cond::NotYet { "nbf" } else { "exp" };
            let t = (now + d).max(-62_000_000_000 * S);
            let v = if r.one_in(3) { claim_time(r, t) } else { json!(rfc3339(r, t)) };
            if v.is_i64() {
                s.tag("NumericDate");
            } else if v.is_f64() {
                s.tag("fractional NumericDate");
            }
            if let Some(p) = &mut s.proof {
                p.set_body(k, v);
            }
            s.tag(k);
        }
        Cond::Nonce => {
            let expected = body_str(s, "nonce").unwrap_or_default();
            match r.below(12) {
                0 => {
                    s.opts = None;
                    s.tag("no options");
                }
                1 => {
                    let gone = r.flip();
                    if let Some(o) = s.opts.as_mut().and_then(Value::as_object_mut) {
                        if gone {
                            o.remove("c_nonce");
                        } else {
                            o.insert("c_nonce".into(), Value::Null);
                        }
                    }
                    s.tag("no c_nonce");
                }
                2 => {
                    let other = ident(r);
                    if let Some(c) = c_nonce_mut(s) {
                        c["expected_c_nonce"] = json!(other);
                    }
                    s.tag("unrelated nonce");
                }
                3 => {
                    if let Some(p) = &mut s.proof {
                        p.set_body("nonce", json!(""));
                    }
                    if r.flip() {
                        if let Some(c) = c_nonce_mut(s) {
                            c["expected_c_nonce"] = json!("");
                        }
                    }
                    s.tag("empty nonce");
                }
                4 => {
                    // nonce in the wrong place
                    let other = ident(r);
                    if let Some(p) = &mut s.proof {
                        p.set_body("c_nonce", json!(expected));
                        p.set_header("nonce", json!(expected));
                        p.set_body("nonce", json!(other));
                    }
                    s.tag("nonce elsewhere");
                }
                n => {
                    let (t, kind) = wrong(r, s, &expected);
                    if n < 9 {
                        if let Some(p) = &mut s.proof {
                            p.set_body("nonce", json!(t));
                        }
                    } else if let Some(c) = c_nonce_mut(s) {
                        c["expected_c_nonce"] = json!(t);
                    }
                    s.tag(format!("nonce {kind}"));
                }
            }
        }
        Cond::Iss => {
            let client = ident(r);
            match r.below(9) {
                0 => {
                    // named client, claim absent
                    set_client(s, Some(&client));
                    if let Some(p) = &mut s.proof {
                        p.unset_body("iss");
                    }
                    s.tag("iss absent");
                }
                1 | 2 => {
                    set_client(s, Some(&client));
                    let (n, kind) = wrong(r, s, &client);
                    if let Some(p) = &mut s.proof {
                        p.set_body("iss", json!(n));
                    }
                    s.tag(format!("iss {kind}"));
                }
                3 => {
                    set_client(s, Some(&client));
                    let aud = issuer_of(s);
                    if let Some(p) = &mut s.proof {
                        p.set_body("iss", json!(aud));
                        p.set_body("sub", json!(client));
                        p.set_body("client_id", json!(client));
                    }
                    s.tag("client elsewhere");
                }
                n => {
                    // no client id: grants decide whether the claim is constrained
                    set_client(s, None);
                    let f = auth_flow(r);
                    let p = pre_flow(r, "c");
                    if let Some(g) = grants(s) {
                        g.clear();
                        match n {
                            4 => {
                                g.insert("authorization_code".into(), f);
                                g.insert(PRE.into(), p);
                            }
                            5 => {
                                g.insert("authorization_code".into(), f);
                            }
                            6 => {}
                            7 => {
                                g.insert(PRE.into(), p);
                            }
                            _ => {
                                g.insert(PRE.into(), p);
                                g.insert("authorization_code".into(), Value::Null);
                            }
                        }
                    }
                    let iss = match r.below(5) {
                        0 => None,
                        1 => Some(String::new()),
                        2 => Some(wrong(r, s, &client).0),
                        _ => Some(client.clone()),
                    };
                    if let Some(p) = &mut s.proof {
                        match iss {
                            Some(i) => p.set_body("iss", json!(i)),
                            None => p.unset_body("iss"),
                        }
                    }
                    s.tag("iss without client id");
                }
            }
        }
        Cond::Aud => {
            let want = issuer_of(s);
            let (v, kind) = match r.below(8) {
                0 => (s.meta["credential_endpoint"].as_str().unwrap_or("e").to_owned(), "endpoint"),
                1 => (s.meta["authorization_server"].as_str().unwrap_or("a").to_owned(), "authorization server"),
                2 => (s.offer.as_ref().and_then(|o| o["credential_issuer"].as_str()).unwrap_or("o").to_owned(), "offer issuer"),
                3 => (ident(r), "unrelated"),
                _ => wrong(r, s, &want),
            };
            if r.one_in(3) {
                s.meta["credential_issuer"] = json!(v);
                if r.flip() {
                    if let Some(o) = &mut s.offer {
                        o["credential_issuer"] = json!(want);
                    }
                }
            } else if let Some(p) = &mut s.proof {
                p.set_body("aud", json!(v));
            }
            s.tag(format!("aud {kind}"));
        }
        Cond::KidNotDid => {
            let kid = s.kid().unwrap_or_else(|| "did:example:1#k".into());
            let did = oracle::did_of(&kid);
            let rest = kid[did.len()..].to_owned();
            let k = if did.starts_with("did:") && did.len() > 4 { non_did_kid(r, &did, &rest) } else { token(r, 8) };
            if let Some(p) = &mut s.proof {
                p.set_header("kid", json!(k));
            }
            s.tag("kid not a did");
        }
        Cond::KeyKind => {
            let v = if r.flip() { ("jwk", jwk_value(r)) } else { ("x5c", x5c_value(r)) };
            let v = (v.0, if r.one_in(3) { json!(v.1.to_string()) } else { v.1 });
            if let Some(p) = &mut s.proof {
                p.unset_header("kid");
                p.set_header(v.0, v.1);
            }
            s.tag(v.0);
        }
        Cond::NoKey => {
            if let Some(p) = &mut s.proof {
                p.unset_header("kid");
                p.unset_header("jwk");
                p.unset_header("x5c");
            }
            s.tag("no key reference");
        }
        Cond::NoDoc => {
            s.doc = None;
            s.tag("no did document");
        }
        Cond::MethodAbsent | Cond::KeyUnusable => {
            let Some(kid) = s.kid() else { return };
            let did = oracle::did_of(&kid);
            let rest = kid[did.len()..].to_owned();
            if c == Cond::MethodAbsent {
                match r.below(5) {
                    4 => {
                        // the document of a kindred DID, with the method under the same name
                        let d = match (r.below(4), did.rsplit_once(':')) {
                            (0, Some((parent, _))) if parent.matches(':').count() >= 2 => parent.to_owned(),
                            (1, _) => {
                                let p = token(r, 5);
                                format!("{did}:{p}")
                            }
                            (2, Some((parent, _))) => {
                                let p = token(r, 5);
                                format!("{parent}:{p}")
                            }
                            _ => near(r, &did).0,
                        };
                        if d == did {
                            return;
                        }
                        s.doc = Some(did_document(r, &d, &rest, Some(true)));
                    }
                    0 => {
                        // the document of somebody else, same fragment
                        let d = self::did(r);
                        s.doc = Some(did_document(r, &d, &rest, Some(true)));
                    }
                    1 => {
                        if let Some(p) = &mut s.proof {
                            p.set_header("kid", json!(format!("{did}{}", near(r, &rest).0)));
                        }
                    }
                    _ => s.doc = Some(did_document(r, &did, &rest, None)),
                }
            } else {
                s.doc = Some(did_document(r, &did, &rest, Some(false)));
            }
            s.tag(format!("{c:?}"));
        }
        _ => {}
    }
}

/// Honest, or mutated mostly along `focus`.
pub fn scenario(r: &mut Rng, focus: &[Cond]) -> Scn {
    let mut s = honest(r);
    match r.below(10) {
        0..=2 => {}
        3..=7 => {
            let c = *r.pick(focus);
            mutate(r, &mut s, c);
        }
        8 => {
            let c = *r.pick(focus);
            let d = *r.pick(focus);
            mutate(r, &mut s, c);
            mutate(r, &mut s, d);
        }
        _ => {
            let c = *r.pick(focus);
            mutate(r, &mut s, c);
            for _ in 0..1 + r.below(2) {
                let d = *r.pick(ALL);
                mutate(r, &mut s, d);
            }
        }
    }
    s
}

// ------------------------------------------------------------------ observation

pub fn analysis_of(s: &Scn) -> Analysis {
    analyse(s.now, &s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref())
}

pub fn set_clock(t: i128) {
    clock::set(t.div_euclid(S) as i64, t.rem_euclid(S) as i64);
}

pub fn inputs(ctx: &mut Ctx, s: &Scn) -> Result<EvalInputs, (&'static str, String)> {
    let r = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref());
    if let Err((w, _)) = &r {
        ctx.class(&format!("unreadable {w}"));
    }
    r
}

pub fn witness(s: &Scn, a: &Analysis, o: Value) -> Value {
    json!({"input": s.input(), "violated": format!("{:?}", a.violated), "unspecified": a.unspecified, "observed": o})
}

/// Codes of errors that concern only the given property.
fn own(prop: &str) -> (&'static [Cond], &'static [u32]) {
    match prop {
        "C03" => (&[Cond::NonceExpired, Cond::Nonce], &[111, 106, 315, 110]),
        "C04" => (&[Cond::Iss, Cond::Aud], &[303, 316]),
        "C05" => (&[Cond::NotYet, Cond::Expired], &[301, 302]),
        "C06" => (&[Cond::Form], &[1]),
        "C07" => (
            &[Cond::NoKey, Cond::NoDoc, Cond::MethodAbsent, Cond::KeyUnusable, Cond::KeyKind],
            &[304, 305, 307, 308, 309, 310, 311, 312],
        ),
        "C08" => (&[], &[313]),
        "C09" => (&[Cond::KidNotDid, Cond::KeyKind], &[306, 314]),
        "C10" => (&[Cond::NoOffer, Cond::AsMeta, Cond::MetaDup, Cond::NoProof], &[]),
        "C11" => (&[Cond::MetaDup], &[1]),
        _ => (&[], &[]),
    }
}

/// Verdict-level judgement shared by all properties. Returns the approval, if any.
pub fn judge(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>) {
    let (conds, codes) = own(ctx.prop);
    match o {
        Outcome::Ok(_) => {
            ctx.class("approved");
            let bad: Vec<Cond> = conds
                .iter()
                .copied()
                .filter(|c| a.violated.contains(c) && a.decides(*c))
                .collect();
            if !bad.is_empty() {
                ctx.violation(format!("credential request approved although {bad:?} ({})", s.tags.join(", ")), witness(s, a, o.json()));
            }
        }
        Outcome::Err(e) => {
            for c in &a.violated {
                ctx.class(&format!("rejected: {c:?}"));
            }
            let code = e.leaf().code;
            let innocent = a.violated.is_empty() && a.unspecified.is_empty() && !a.unsigned;
            // timing and form are never the reason unless really violated
            let wrong_reason = a.unspecified.is_empty()
                && match ctx.prop {
                    "C05" => codes.contains(&code) && !a.violated.contains(&Cond::NotYet) && !a.violated.contains(&Cond::Expired),
                    "C06" => codes.contains(&code) && !a.violated.contains(&Cond::Form) && !a.violated.contains(&Cond::MetaDup),
                    "C11" => codes.contains(&code) && !a.violated.contains(&Cond::Form) && !a.violated.contains(&Cond::MetaDup),
                    "C10" => innocent,
                    _ => innocent && codes.contains(&code),
                };
            if wrong_reason {
                ctx.violation(
                    format!("credential request rejected with {} {} although that condition holds ({})", e.leaf().name, e.leaf().fields, s.tags.join(", ")),
                    witness(s, a, o.json()),
                );
            }
        }
        Outcome::Panic(p) => ctx.violation(format!("evaluation panicked: {p}"), witness(s, a, o.json())),
        Outcome::Unreadable(w, m) => {
            if ctx.prop == "C10" && a.violated.is_empty() && a.unspecified.is_empty() {
                ctx.violation(format!("well-formed {w} cannot be read: {m}"), witness(s, a, o.json()));
            }
        }
    }
}

pub fn observe(ctx: &mut Ctx, s: &Scn) -> (Outcome<Approved>, Analysis, Option<EvalInputs>) {
    let a = analysis_of(s);
    match inputs(ctx, s) {
        Ok(i) => {
            set_clock(s.now);
            ctx.events += 1;
            let o = api::evaluate(&i);
            clock::real();
            (o, a, Some(i))
        }
        Err((w, m)) => (Outcome::Unreadable(w, m), a, None),
    }
}

fn count(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>, focus: &[Cond]) {
    for t in &s.tags {
        if !t.contains(' ') || t.len() < 40 {
            ctx.class(t);
        }
    }
    let touches = s.tags.len() > 0 || a.violated.iter().any(|c| focus.contains(c));
    let key = (format!("{:?}", a.violated), s.tags.clone(), s.now, s.jwt());
    ctx.decided(&key, touches || matches!(o, Outcome::Ok(_)));
    ctx.sample(|| json!({"input": s.input(), "violated": format!("{:?}", a.violated), "observed": o.json()}));
}

// ------------------------------------------------------------------ per property

fn case_c03(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::Nonce, Cond::NonceExpired];
    let s = scenario(r, focus);
    let (o, a, i) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    let ok = matches!(o, Outcome::Ok(_));
    match (a.nonce_slack, ok) {
        (Some(0), true) => ctx.class("nonce expires exactly now: approved"),
        (Some(1), true) => ctx.class("nonce expires in 1 ns: approved"),
        (Some(-1), false) => ctx.class("nonce expired 1 ns ago: rejected"),
        _ => {}
    }
    if let Some(l) = s.opts.as_ref().and_then(|o| o["c_nonce"]["c_nonce_expires_in"].as_u64()) {
        if l > 1 << 31 && ok {
            ctx.class("lifetime over 2^31 s: approved");
        }
        if l == 0 {
            ctx.class("lifetime 0");
        }
    }
    // the stand-alone nonce check
    if i.is_some() {
        if let Some(p) = s.jwt().and_then(|j| j.parse::<openid4vci::jwt::ProofJwt>().ok()) {
            let actual = a.proof.as_ref().and_then(|p| p.body.as_ref()).and_then(|b| b.get("nonce")).and_then(Value::as_str).map(str::to_owned);
            let candidates = [None, actual.clone(), a.expected_nonce.clone(), actual.as_ref().map(|x| near(r, x).0)];
            for c in candidates {
                let want = c.is_some() && c == actual;
                let w = json!({"nonce": actual, "checked_against": c});
                let got = ctx.lib("check_nonce", || w.clone(), || p.check_nonce(c.clone()).is_ok());
                if actual.is_some() {
                    ctx.check(got == Some(want), || format!("check_nonce gave {got:?}, expected {want}"), || w);
                }
            }
        }
    }
    count(ctx, &s, &a, &o, focus);
}

fn case_c04(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::Iss, Cond::Aud];
    let s = scenario(r, focus);
    let (o, a, _) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    let iss = body_str(&s, "iss");
    let g = s.offer.as_ref().map(|x| (oracle::flow(x, "authorization_code").is_some(), oracle::flow(x, PRE).is_some()));
    match (&o, &a.client_id, &iss) {
        (Outcome::Ok(_), Some(_), _) => ctx.class("approved: client id named"),
        (Outcome::Ok(_), None, Some(_)) if g == Some((false, true)) => ctx.class("approved: no client id, iss present, pre-authorized only"),
        (Outcome::Err(_), None, Some(_)) if g == Some((true, true)) => ctx.class("rejected: no client id, iss present, both flows"),
        (Outcome::Err(_), Some(_), None) => ctx.class("rejected: client id named, iss absent"),
        _ => {}
    }
    if matches!(o, Outcome::Ok(_)) && s.offer.as_ref().map_or(false, |x| x["credential_issuer"] != s.meta["credential_issuer"]) {
        ctx.class("approved: offer of another issuer");
    }
    count(ctx, &s, &a, &o, focus);
}

fn case_c05(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::NotYet, Cond::Expired];
    let s = scenario(r, focus);
    let (o, a, _) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    let ok = matches!(o, Outcome::Ok(_));
    if let Some(p) = &a.proof {
        if let Some(n) = p.nbf.filter(|n| n.eps == 0) {
            match (n.ns - s.now, ok) {
                (0, true) => ctx.class("nbf exactly now: accepted"),
                (1, false) => ctx.class("nbf 1 ns ahead: rejected"),
                _ => {}
            }
        }
        if let Some(n) = p.exp.filter(|n| n.eps == 0) {
            match (n.ns - s.now, ok) {
                (0, false) => ctx.class("exp exactly now: rejected"),
                (1, true) => ctx.class("exp 1 ns ahead: accepted"),
                _ => {}
            }
        }
        // the proof's own verification
        if p.form.is_empty() && a.clear_but(&["key of", "issuer claim"]) {
            if let Some(Ok(j)) = s.jwt().map(|j| j.parse::<openid4vci::jwt::ProofJwt>()) {
                set_clock(s.now);
                let w = witness(&s, &a, Value::Null);
                let got = ctx.lib("ProofJwt::verify", || w.clone(), || j.verify().map_err(|e| api::view_jwt(&e)));
                clock::real();
                let want = !a.violated.contains(&Cond::NotYet) && !a.violated.contains(&Cond::Expired);
                if let Some(g) = got {
                    ctx.class(if g.is_ok() { "verify accepted" } else { "verify rejected" });
                    ctx.check(g.is_ok() == want, || format!("ProofJwt::verify gave {g:?}, expected accepted={want}"), || w);
                }
            }
        }
    }
    count(ctx, &s, &a, &o, focus);
}

fn case_c07(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::MethodAbsent, Cond::KeyUnusable, Cond::NoDoc, Cond::NoKey, Cond::KeyKind];
    let s = if r.flip() { honest(r) } else { scenario(r, focus) };
    let (o, a, _) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    judge_key(ctx, &s, &a, &o);
    // the stand-alone extraction
    if a.unspecified.is_empty() {
        if let (Some(p), Some(j)) = (&a.proof, s.jwt()) {
            if p.form.is_empty() && p.key_kinds == ["kid"] {
                if let (Ok(jwt), Ok(doc)) = (j.parse::<openid4vci::jwt::ProofJwt>(), s.doc.as_ref().map(api::read::<openid4vci::Document>).transpose()) {
                    let w = witness(&s, &a, Value::Null);
                    let got = ctx.lib("extract_key_and_alg", || w.clone(), || {
                        jwt.extract_key_and_alg(doc.as_ref()).map(|(k, al)| (k, api::alg_name(&al).to_owned())).map_err(|e| api::view_jwt(&e))
                    });
                    let want = a.key.clone().zip(p.alg.clone());
                    if let Some(g) = got {
                        ctx.check(g.clone().ok() == want, || format!("extract_key_and_alg gave {g:?}, expected {want:?}"), || w);
                    }
                }
            }
        }
    }
    count(ctx, &s, &a, &o, focus);
}

pub fn judge_key(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>) {
    let Outcome::Ok(ap) = o else { return };
    if let Some(k) = &a.key {
        ctx.check(
            ap.public_key == *k,
            || format!("returned public key {} is not the key {} of the method named by the kid", hex(&ap.public_key), hex(k)),
            || witness(s, a, o.json()),
        );
        let wire: Vec<u8> = serde_json::from_value(ap.wire["proof_of_possession"]["public_key"].clone()).unwrap_or_default();
        ctx.check(wire == *k, || "serialized public key differs from the method's key".into(), || witness(s, a, o.json()));
        if let (Some(doc), Some(kid)) = (&s.doc, s.kid()) {
            for sec in SECTIONS {
                for m in doc.get(*sec).and_then(Value::as_array).into_iter().flatten() {
                    let id = m["id"].as_str().unwrap_or("");
                    if !id.is_empty() && (id == kid || kid.ends_with(id)) && matches!(oracle::key_of(m), oracle::Key::Bytes(b) if b == *k) {
                        ctx.class(if id == kid { "absolute method id" } else { "relative method id" });
                        ctx.class(&format!("method in {sec}"));
                        for rep in ["publicKeyJwk", "publicKeyBase58", "publicKeyHex", "publicKeyMultibase"] {
                            if m.get(rep).is_some() {
                                ctx.class(rep);
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(alg) = a.proof.as_ref().and_then(|p| p.alg.as_ref()) {
        ctx.check(
            ap.algorithm == *alg && ap.wire["proof_of_possession"]["algorithm"] == json!(alg),
            || format!("returned algorithm {} / {} is not the header's {alg}", ap.algorithm, ap.wire["proof_of_possession"]["algorithm"]),
            || witness(s, a, o.json()),
        );
    }
    ctx.check(ap.has_pop, || "approved without proof of possession".into(), || witness(s, a, o.json()));
}

fn case_c08(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::NotYet, Cond::Expired];
    let mut s = if r.one_in(4) { scenario(r, focus) } else { honest(r) };
    if r.one_in(6) {
        if let Some(p) = &mut s.proof {
            p.sig = None;
        }
        s.tag("unsigned");
    } else {
        if r.one_in(12) {
            if let Some(p) = &mut s.proof {
                p.sig = Some(String::new());
            }
            s.tag("empty signature");
        }
        s.tag("signed");
    }
    let (o, a, _) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    judge_pop(ctx, &s, &a, &o);
    if a.readable() {
        if let (Some(p), Some(j)) = (&a.proof, s.jwt()) {
            if p.form.is_empty() {
                if let Ok(jwt) = j.parse::<openid4vci::jwt::ProofJwt>() {
                    let w = witness(&s, &a, Value::Null);
                    let m = ctx.lib("to_signable_message", || w.clone(), || jwt.to_signable_message().ok());
                    if let Some(m) = m {
                        ctx.class("stand-alone message");
                        message(ctx, p, m.as_deref(), &w, "to_signable_message");
                    }
                    let g = ctx.lib("extract_signature", || w.clone(), || jwt.extract_signature().ok());
                    if let Some(g) = g {
                        ctx.class("stand-alone signature");
                        signature(ctx, p, g.as_deref(), &w, "extract_signature");
                    }
                }
            }
        }
    }
    count(ctx, &s, &a, &o, focus);
}

const K_MESSAGE: &str = "the message to verify is the re-serialized header and claims, not the proof's signing input";
const K_SIGNATURE: &str = "the signature returned is the text after the second dot of the re-serialized proof, not the proof's signature";
const K_UNSIGNED: &str = "a proof without signature part is approved, with claim text as its signature";

fn message(ctx: &mut Ctx, p: &oracle::ProofView, got: Option<&[u8]>, w: &Value, op: &str) {
    let want = p.signing_input.as_ref().map(String::as_bytes);
    if got.is_some() && got == want {
        ctx.class("message correct");
    } else if got.is_some() && oracle::deviant(p).map(|d| d.0).as_deref() == got {
        ctx.known(K_MESSAGE, || format!("{op}: {}", w["input"]["credential_request"]["proof"]));
    } else {
        let text = got.map(|g| String::from_utf8_lossy(g).into_owned());
        ctx.violation(format!("{op}: message {text:?} is neither the signing input nor the known deviation"), w.clone());
    }
}

fn signature(ctx: &mut Ctx, p: &oracle::ProofView, got: Option<&[u8]>, w: &Value, op: &str) {
    let dev = oracle::deviant(p);
    let Some(sig) = &p.signature else {
        match got {
            None => ctx.class("unsigned refused"),
            Some(g) if dev.and_then(|d| d.1).as_deref() == Some(g) => {
                ctx.known(K_UNSIGNED, || format!("{op}: {}", w["input"]["credential_request"]["proof"]));
            }
            Some(g) => ctx.violation(format!("{op}: signature {:?} of an unsigned proof", String::from_utf8_lossy(g)), w.clone()),
        }
        return;
    };
    let decoded = base64::Engine::decode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, sig).ok();
    match got {
        Some(g) if g == sig.as_bytes() || Some(g) == decoded.as_deref() => ctx.class("signature correct"),
        Some(g) if dev.and_then(|d| d.1).as_deref() == Some(g) => {
            ctx.known(K_SIGNATURE, || format!("{op}: {}", w["input"]["credential_request"]["proof"]));
        }
        None if sig.is_empty() => ctx.class("empty signature refused"),
        _ => {
            let text = got.map(|g| String::from_utf8_lossy(g).into_owned());
            ctx.violation(format!("{op}: signature {text:?} is neither the proof's nor the known deviation"), w.clone());
        }
    }
}

pub fn judge_pop(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>) {
    let Outcome::Ok(ap) = o else { return };
    let Some(p) = &a.proof else { return };
    if !a.readable() || !p.form.is_empty() {
        return;
    }
    let w = witness(s, a, o.json());
    message(ctx, p, Some(&ap.message), &w, "evaluation");
    signature(ctx, p, Some(&ap.signature), &w, "evaluation");
    let wire = &ap.wire["proof_of_possession"];
    ctx.check(
        *wire.get("message").unwrap_or(&Value::Null) == json!(ap.message) && *wire.get("signature").unwrap_or(&Value::Null) == json!(ap.signature),
        || "serialized message or signature differ from the returned ones".into(),
        || w,
    );
}

fn case_c09(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::KidNotDid, Cond::KeyKind, Cond::NoKey, Cond::NoProof];
    let s = scenario(r, focus);
    let (o, a, i) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    judge_subject(ctx, &s, &a, &o);
    if let Some(i) = &i {
        ctx.events += 1;
        let p = api::pre_evaluate(&i.request);
        judge_pre(ctx, &s, &a, &p);
        if a.readable() {
            if let (Outcome::Ok(ap), Outcome::Ok(d)) = (&o, &p) {
                ctx.check(ap.subject == *d, || format!("subject {:?} differs from the DID to resolve {d:?}", ap.subject), || witness(&s, &a, o.json()));
            }
        }
    }
    count(ctx, &s, &a, &o, focus);
}

pub fn judge_subject(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>) {
    let Outcome::Ok(ap) = o else { return };
    if !a.readable() {
        return;
    }
    ctx.class("subject reported");
    ctx.check(
        ap.subject == a.did && ap.wire["subject_id"].as_str() == a.did.as_deref(),
        || format!("subject {:?} is not the DID of the kid {:?}", ap.subject, a.did),
        || witness(s, a, o.json()),
    );
}

/// Pre-evaluation: which DID is reported.
pub fn judge_pre(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Option<String>>) {
    if !a.readable() {
        ctx.class("unspecified");
        return;
    }
    let w = || witness(s, a, o.json());
    if let Outcome::Panic(p) = o {
        ctx.violation(format!("pre-evaluation panicked: {p}"), w());
        return;
    }
    if a.violated.contains(&Cond::Form) {
        return;
    }
    let want: Result<Option<String>, Cond> = if s.jwt().is_none() {
        ctx.class("none: no proof");
        Ok(None)
    } else if a.violated.contains(&Cond::KidNotDid) {
        Err(Cond::KidNotDid)
    } else if a.violated.contains(&Cond::KeyKind) {
        Err(Cond::KeyKind)
    } else if a.violated.contains(&Cond::NoKey) {
        ctx.class("none: no key reference");
        Ok(None)
    } else {
        Ok(a.did.clone())
    };
    match (&want, o) {
        (Ok(d), Outcome::Ok(g)) => {
            if d.is_some() {
                ctx.class("did reported");
                let kid = s.kid().unwrap_or_default();
                for (c, n) in [('/', "kid with path"), ('?', "kid with query"), ('#', "kid with fragment")] {
                    if kid.contains(c) {
                        ctx.class(n);
                    }
                }
            }
            ctx.check(d == g, || format!("pre-evaluation reports {g:?}, expected {d:?}"), w);
        }
        (Err(c), Outcome::Ok(g)) => ctx.violation(format!("pre-evaluation reports {g:?} although {c:?}"), w()),
        (Ok(d), Outcome::Err(e)) => ctx.violation(format!("pre-evaluation rejects with {} a request whose DID is {d:?}", e.leaf().name), w()),
        _ => {}
    }
    ctx.decided(&(s.kid(), format!("{want:?}")), true);
}

fn case_c10(ctx: &mut Ctx, r: &mut Rng) {
    let focus = &[Cond::NoOffer, Cond::AsMeta, Cond::MetaDup, Cond::NoProof];
    let s = if r.flip() { honest(r) } else { scenario(r, focus) };
    let (o, a, _) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    judge_format(ctx, &s, &a, &o);
    count(ctx, &s, &a, &o, focus);
}

pub fn judge_format(ctx: &mut Ctx, s: &Scn, a: &Analysis, o: &Outcome<Approved>) {
    let Outcome::Ok(ap) = o else { return };
    ctx.class(&format!("format {}", s.format["format"].as_str().unwrap_or("")));
    ctx.check(
        same_json(&ap.credential, &s.format) && same_json(&ap.wire["credential"], &s.format),
        || format!("approved credential {} is not the requested {}", ap.credential, s.format),
        || witness(s, a, o.json()),
    );
}

fn case_c11(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = honest(r);
    let n = match r.below(6) {
        0 => 20 + r.below(11),
        1 => r.below(3),
        _ => 2 + r.below(6),
    };
    let mut ids: Vec<Option<String>> = if r.one_in(6) { vec![None; n] } else { unique_ids(r, n) };
    let dup = n >= 2 && r.flip();
    if dup {
        let i = r.below(n);
        let mut j = r.below(n);
        if i == j {
            j = (i + 1) % n;
        }
        if ids[i].is_none() {
            ids[i] = Some(if r.one_in(4) { String::new() } else { text(r) });
        }
        ids[j] = ids[i].clone();
        if r.one_in(4) && n > 2 {
            let k = (j + 1) % n;
            ids[k] = ids[i].clone();
        }
    } else if n >= 2 && r.flip() {
        let i = r.below(n);
        let j = (i + 1) % n;
        if let Some(x) = ids[i].clone() {
            let y = near(r, &x).0;
            if !ids.contains(&Some(y.clone())) {
                ids[j] = Some(y);
                ctx.class("near-duplicate ids");
            }
        }
    }
    let present: BTreeSet<&String> = ids.iter().flatten().collect();
    let mut creds: Vec<Value> = ids.iter().map(|id| supported(r, id.clone())).collect();
    if n >= 2 && r.one_in(5) {
        // same format profile under different (or no) ids is allowed
        let proto = creds[0].clone();
        for (c, id) in creds.iter_mut().zip(&ids) {
            *c = proto.clone();
            match id {
                Some(i) => c["id"] = json!(i),
                None => {
                    c.as_object_mut().unwrap().remove("id");
                }
            }
        }
        if present.is_empty() {
            ctx.class("identical entries without id");
        }
    }
    s.meta["credentials_supported"] = json!(creds);
    let want_bad = oracle::duplicate_ids(&s.meta);
    ctx.class(if want_bad { "duplicate ids" } else { "distinct ids" });
    if present.is_empty() {
        ctx.class("no ids");
    }
    if ids.iter().filter(|i| i.is_none()).count() >= 2 {
        ctx.class("several entries without id");
    }
    if n >= 20 {
        ctx.class("20 or more entries");
    }
    let (o, a, i) = observe(ctx, &s);
    judge(ctx, &s, &a, &o);
    let Some(i) = i else { return };
    let w = json!({"ids": ids, "credentials_supported": s.meta["credentials_supported"]});
    let v = ctx.lib("metadata validate", || w.clone(), || i.meta.validate().is_err());
    if let Some(v) = v {
        ctx.check(v == want_bad, || format!("metadata validation refused={v}, expected refused={want_bad}"), || w.clone());
    }
    let pre = if r.one_in(3) { None } else { crate::build::pre_flow(&pre_flow(r, "c")) };
    let endpoint = if r.flip() { Some(url(r)) } else { None };
    // any of the present ids may be offered, also the clashing one
    let offered: Vec<String> = ids.iter().flatten().filter(|_| r.one_in(4)).cloned().collect();
    let v = ctx.lib("create_offer", || w.clone(), || {
        openid4vci::credential_issuer::CredentialIssuer::create_offer(
            &i.meta,
            offered,
            &endpoint,
            &None,
            &pre,
        )
        .is_err()
    });
    if let Some(v) = v {
        ctx.check(v == want_bad, || format!("offer creation refused={v}, expected refused={want_bad}"), || w.clone());
    }
    ctx.decided(&ids, n > 1);
    ctx.sample(|| w);
}

// ------------------------------------------------------------------ C19

fn case_c19(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(10) {
        0 | 1 => {
            let pins = r.flip();
            let (c, rel, opts) = tokens::gen_case(r, pins);
            let Some((o, violated)) = tokens::observe(ctx, &c, opts) else { return };
            if let Outcome::Err(e) = &o {
                if e.code == 400 {
                    ctx.class("token error 400");
                }
                tally(ctx, violated.len());
                ctx.decided(&(&c.code, c.pin, c.expected_pin, &rel, e.leaf().code), true);
            }
            tokens::judge_error(ctx, &c, &o, &violated);
        }
        2 => issuer::case_offer(ctx, r),
        _ => {
            let mut s = honest(r);
            for _ in 0..1 + r.below(3) {
                let c = *r.pick(ALL);
                mutate(r, &mut s, c);
            }
            let (o, a, i) = observe(ctx, &s);
            if let Outcome::Err(e) = &o {
                tally(ctx, a.violated.len());
                judge_error(ctx, &s, &a, e, "evaluation");
            }
            if let Some(i) = &i {
                ctx.events += 1;
                if let Outcome::Err(e) = api::pre_evaluate(&i.request) {
                    judge_error(ctx, &s, &a, &e, "pre-evaluation");
                    // pre-evaluation looks at the request only
                    let code = e.leaf().code;
                    if a.unspecified.is_empty() {
                        let ok = match code {
                            1 => a.violated.contains(&Cond::Form),
                            306 | 314 => true,
                            _ => false,
                        };
                        ctx.check(ok, || format!("pre-evaluation rejects with {}", e.leaf().name), || witness(&s, &a, e.json()));
                    }
                }
                ctx.events += 1;
                if let Ok(Err(e)) = crate::core::guarded(|| {
                    openid4vci::credential_issuer::CredentialIssuer::create_credential_success_response(&i.request, None, None)
                        .map(|_| ())
                        .map_err(|e| api::view_ci(&e))
                }) {
                    if a.unspecified.is_empty() {
                        ctx.check(
                            e.leaf().code == 1 && a.violated.contains(&Cond::Form),
                            || format!("success response creation fails with {} although the request is valid", e.leaf().name),
                            || witness(&s, &a, e.json()),
                        );
                    }
                }
            }
            ctx.sample(|| json!({"input": s.input(), "violated": format!("{:?}", a.violated), "observed": o.json()}));
        }
    }
}

fn tally(ctx: &mut Ctx, n: usize) {
    match n {
        0 => {}
        1 => ctx.class("exactly one condition"),
        _ => ctx.class("several conditions"),
    }
}

/// Does the error name a condition that is violated, with true values?
pub fn judge_error(ctx: &mut Ctx, s: &Scn, a: &Analysis, e: &ErrView, op: &str) {
    let l = e.leaf();
    ctx.class(&format!("error {}", l.code));
    if !a.unspecified.is_empty() {
        return;
    }
    let has = |c: Cond| a.violated.contains(&c);
    let f = &l.fields;
    let now = json!(s.now.to_string());
    let p = a.proof.as_ref();
    let claim = |k: &str| -> Value {
        p.and_then(|p| p.body.as_ref()).and_then(|b| b.get(k)).cloned().unwrap_or(Value::Null)
    };
    let near_ns = |v: &Value, i: Option<oracle::Instant>| -> bool {
        match (v.as_str().and_then(|s| s.parse::<i128>().ok()), i) {
            (Some(x), Some(i)) => (x - i.ns).abs() <= i.eps,
            _ => false,
        }
    };
    let kid = p.and_then(|p| p.kid.clone()).map_or(Value::Null, |k| json!(k));
    let mut exp = a.nonce_expiry.unwrap_or(0);
    if dt(exp).is_none() {
        exp = nanos(&chrono::DateTime::<chrono::Utc>::MAX_UTC);
    }
    let ok = match l.code {
        1 => {
            if e.code == 101 {
                has(Cond::Form)
            } else {
                has(Cond::Form) || has(Cond::MetaDup)
            }
        }
        108 => has(Cond::AsMeta),
        109 => has(Cond::NoOffer),
        112 => has(Cond::NoProof),
        111 => has(Cond::NonceExpired) && f["now"] == now && f["expiry_timestamp"] == json!(exp.to_string()),
        106 => has(Cond::NonceExpired),
        110 => has(Cond::Nonce) && a.expected_nonce.is_none(),
        301 => has(Cond::NotYet) && f["now"] == now && near_ns(&f["valid_from"], p.and_then(|p| p.nbf)),
        302 => has(Cond::Expired) && f["now"] == now && near_ns(&f["valid_until"], p.and_then(|p| p.exp)),
        303 => has(Cond::Iss) && f["expected_iss_in_jwt"] == json!(a.client_id) && f["actual_iss_in_jwt"] == claim("iss"),
        315 => has(Cond::Nonce) && f["expected_nonce"] == json!(a.expected_nonce) && f["actual_nonce"] == claim("nonce"),
        316 => has(Cond::Aud) && f["expected_aud_in_jwt"] == s.meta["credential_issuer"] && f["actual_aud_in_jwt"] == claim("aud"),
        306 => has(Cond::KidNotDid) && f["kid"] == kid,
        304 => has(Cond::NoKey),
        305 => has(Cond::NoDoc),
        307 => has(Cond::MethodAbsent) && f["did"] == kid,
        308 | 310 | 311 | 312 => has(Cond::KeyUnusable) || has(Cond::KeyKind),
        309 => has(Cond::KeyKind),
        314 => {
            let kind = p.and_then(|p| p.key_kinds.first().copied()).unwrap_or("");
            let value = p.and_then(|p| p.header.as_ref()).and_then(|h| h.get(kind)).cloned().unwrap_or(Value::Null);
            let reported = f["key_type"].as_str().unwrap_or("");
            has(Cond::KeyKind)
                && f["key_name"] == json!(kind)
                && (value.as_str() == Some(reported) || serde_json::from_str::<Value>(reported).map_or(false, |v| v == value))
        }
        313 => a.unsigned,
        _ => false,
    };
    ctx.check(
        ok,
        || format!("{op} rejected with {} {} (code {}), violated: {:?}", l.name, l.fields, l.code, a.violated),
        || witness(s, a, e.json()),
    );
    ctx.decided(&(l.code, l.fields.to_string(), format!("{:?}", a.violated)), true);
}
