//! Arguments that grow in one direction, and operations on them: what an operation holds (C31) and
//! how long it keeps the processor busy (C34) as its arguments grow.
use crate::api::{self, token_opts, token_request};
use crate::build;
use crate::core::{busy, busy_of, guarded, hash_of, Ctx, Rng};
use crate::errors;
use crate::evalx;
use crate::gen::*;
use crate::probe;
use crate::Def;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId, CredentialOrIds, CredentialSuccessResponse};
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::ProofJwt;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C34",
        quick: 9_000,
        thorough: 60_000,
        case: case_time,
        extra: None,
        required: &[
            "long: nonce", "long: audience", "long: kid", "long: jwk", "long: x5c", "long: signature", "long: code", "long: id", "long: endpoint", "long: descriptions", "long: raw token",
            "long: DID path", "long: subject", "long: instant", "long: algorithm", "long: claims member", "many: supported credentials", "many: offered ids", "many: offered profiles", "many: unknown members", "many: verification methods",
            "many: types", "many: claims", "many: displays", "many: error details", "many: token parts", "deep: unknown members", "deep: claims", "deep: error details", "deep: linked contexts",
            "deep: nested errors", "deep: DID document", "operation: evaluate credential request", "operation: create offer", "operation: evaluate token request", "operation: proof from text",
        ],
        rule: "one observation = one operation on arguments of up to 64 KiB (or nested up to 120 deep) that grow in one direction, with the processor time the thread used; violated when the least of five runs takes more than 400 ms, or a run does not end within 20 s of processor time (the unchanged library needs a few ms, unoptimised); non-trivial = distinct arguments",
    }]
}

pub struct Job {
    pub operation: &'static str,
    /// bytes of arguments
    pub size: usize,
    pub run: Box<dyn Fn() + Send>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Long,
    Many,
    Deep,
}

pub struct Dim {
    pub kind: Kind,
    pub name: &'static str,
    pub jobs: fn(&mut Rng, usize) -> Vec<Job>,
}

impl Dim {
    pub fn class(&self) -> String {
        format!("{}: {}", match self.kind {
            Kind::Long => "long",
            Kind::Many => "many",
            Kind::Deep => "deep",
        }, self.name)
    }
}

macro_rules! dims {
    ($($kind:ident $name:literal $f:expr;)*) => {
        pub const DIMS: &[Dim] = &[$(Dim { kind: Kind::$kind, name: $name, jobs: $f }),*];
    };
}

dims! {
    Long "nonce" |r, n| claim(r, n, "nonce");
    Long "audience" |r, n| claim(r, n, "aud");
    Long "issuer" |r, n| claim(r, n, "iss");
    Long "subject" |r, n| claim(r, n, "sub");
    Long "instant" |r, n| { let name = *r.pick(&["iat", "exp", "nbf"]); claim(r, n, name) };
    Long "claims member" |r, n| claim(r, n, "x");
    Long "typ" |r, n| header(r, n, "typ");
    Long "kid" |r, n| header(r, n, "kid");
    Long "jwk" |r, n| header(r, n, "jwk");
    Long "x5c" |r, n| header(r, n, "x5c");
    Long "algorithm" |r, n| header(r, n, "alg");
    Long "header member" |r, n| header(r, n, "x");
    Long "DID path" did_path;
    Long "signature" signature_long;
    Long "raw token" raw_token;
    Long "code" code;
    Long "id" id_long;
    Long "endpoint" endpoint;
    Long "descriptions" descriptions;
    Long "responses" responses;
    Long "request format" |r, n| { let mut s = honest(r); s.format = json!({"format": "mso_mdoc", "doctype": long(r, n)}); eval_jobs(&s) };
    Long "proof type" |r, n| { let mut s = honest(r); s.proof_type = Some(json!(long(r, n))); eval_jobs(&s) };
    Long "client id" |r, n| { let mut s = honest(r); let c = long(r, n); evalx::set_client(&mut s, Some(&c)); eval_jobs(&s) };
    Many "supported credentials" supported_many;
    Many "offered ids" offered_ids;
    Many "offered profiles" offered_profiles;
    Many "unknown members" unknown_members;
    Many "verification methods" methods;
    Many "types" |r, n| format_jobs(json!({"format": "ldp_vc", "@context": texts(r, n), "types": texts(r, n), "order": texts(r, n)}));
    Many "claims" |r, n| claims(r, n);
    Many "displays" displays;
    Many "error details" |r, n| { let m: Map<String, Value> = (0..n / 16).map(|k| (format!("d{k}"), any_json(r, 1))).collect(); detail_jobs(Value::Object(m)) };
    Many "token parts" token_parts;
    Many "x5c certificates" |r, n| { let mut s = honest(r); set_key(&mut s, "x5c", texts(r, n)); eval_jobs(&s) };
    Many "jwk members" |r, n| { let mut s = honest(r); let m: Map<String, Value> = (0..n / 16).map(|k| (format!("m{k}"), json!(k))).collect(); let mut m = m; m.insert("kty".into(), json!("OKP")); set_key(&mut s, "jwk", Value::Object(m)); eval_jobs(&s) };
    Deep "unknown members" |r, n| { let v = nested(r, n); deep_members(r, v) };
    Deep "claims" |r, n| { let v = nested(r, n); format_jobs(json!({"format": *r.pick(&["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"]), "types": ["a"], "doctype": "d", "@context": ["c"], "credentialSubject": {"a": v}, "claims": {"a": v}})) };
    Deep "linked contexts" |r, n| { let v = nested(r, n); format_jobs(json!({"format": "ldp_vc", "types": ["a"], "@context": ["c", {"a": v}]})) };
    Deep "error details" |r, n| detail_jobs(json!({"details": nested(r, n)}));
    Deep "nested errors" nested_errors;
    Deep "DID document" |r, n| { let mut s = honest(r); let v = nested(r, n); if let Some(d) = s.doc.as_mut() { d["x"] = v.clone(); d["verificationMethod"][0]["x"] = v; } eval_jobs(&s) };
}

/// A text of `n` bytes, all of one kind or of many.
fn long(r: &mut Rng, n: usize) -> String {
    let units = [
        "a", "0", ".", " ", "\"", "\\", "\u{1}", "%", "?", "&", "=", "/", "#", ":", "+", "\u{e9}", "\u{1f600}", "\n", "did:", "a?", "%2", "\"kid\":", "{}", "[", "{", "}", "<", "\u{0}", "A",
        "aaaaaaaab", "ab",
    ];
    if r.one_in(4) {
        return token(r, n);
    }
    let u = *r.pick(&units);
    let mut s = u.repeat(n / u.len() + 1);
    if r.one_in(3) {
        s.push_str(*r.pick(&units));
    }
    s
}

fn texts(r: &mut Rng, n: usize) -> Value {
    let len = *r.pick(&[0usize, 1, 10, 100]);
    let k = n / (len + 4);
    let same = r.flip();
    let t = token(r, len);
    Value::Array((0..k).map(|i| if same { json!(t) } else { json!(format!("{t}{i}")) }).collect())
}

/// Arrays and objects, `n` deep.
fn nested(r: &mut Rng, n: usize) -> Value {
    let style = r.below(4);
    let mut v = json!(1);
    for k in 0..n {
        v = match style {
            0 => json!([v]),
            1 => json!({ "a": v }),
            2 if k % 2 == 0 => json!([v]),
            2 => json!({"display": v, "name": "x"}),
            _ => json!({ *r.pick(&["format", "types", "claims", "credentialSubject", "display", "@context", "grants", "proof", "jwk", "verificationMethod"]): v }),
        };
    }
    v
}

fn job(operation: &'static str, size: usize, f: impl Fn() + Send + 'static) -> Job {
    Job { operation, size, run: Box::new(f) }
}

fn used<T>(t: T) {
    drop(std::hint::black_box(t));
}

fn through<T: DeserializeOwned + Serialize + std::fmt::Debug>(operation: &'static str, v: &Value, out: &mut Vec<Job>) {
    let text = v.to_string();
    let value = v.clone();
    out.push(job(operation, text.len(), move || match serde_json::from_str::<T>(&text) {
        Ok(v) => {
            used(serde_json::to_string(&v));
            used(format!("{v:?}"));
        }
        Err(e) => used(e.to_string()),
    }));
    let size = value.to_string().len();
    out.push(job(operation, size, move || used(serde_json::from_value::<T>(value.clone()).is_ok())));
}

fn eval_jobs(s: &Scn) -> Vec<Job> {
    let mut out = vec![];
    let size = s.input().to_string().len();
    through::<CredentialRequest>("reading credential request", &s.request(), &mut out);
    if let Some(jwt) = s.jwt() {
        let (a, n) = (jwt.clone(), jwt.len());
        out.push(job("proof from text", n, move || match ProofJwt::from_str(&a) {
            Ok(p) => used(serde_json::to_string(&p)),
            Err(e) => used(e.information()),
        }));
        if let Ok(p) = ProofJwt::from_str(&jwt) {
            let doc: Option<Document> = s.doc.as_ref().and_then(|d| api::read(d).ok());
            out.push(job("proof methods", size, move || {
                used(p.validate());
                used(p.verify());
                used(p.extract_did().map_err(|e| e.information().to_string()));
                used(p.extract_key_and_alg(doc.as_ref()).map_err(|e| e.information().to_string()));
                used(p.to_signable_message());
                used(p.extract_signature());
                used(p.check_nonce(Some("x".into())).map_err(|e| e.information().to_string()));
                used(p.check_iss(None).map_err(|e| e.information().to_string()));
                used(p.check_aud("x").map_err(|e| e.information().to_string()));
            }));
        }
    }
    let Ok(i) = api::read_eval(&s.meta, &s.request(), s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()) else { return out };
    let (now, request) = (s.now, s.request());
    out.push(job("evaluate credential request", size, move || {
        evalx::set_clock(now);
        let x = CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone());
        crate::clock::real();
        match x {
            Ok(v) => used(serde_json::to_string(&v)),
            Err(e) => used(e.information().to_string()),
        }
    }));
    if let Ok(q) = api::read::<CredentialRequest>(&request) {
        out.push(job("pre-evaluate", request.to_string().len(), move || match CredentialIssuer::pre_evaluate_credential_request(&q) {
            Ok(v) => used(serde_json::to_string(&v)),
            Err(e) => used(e.information().to_string()),
        }));
    }
    out
}

fn set_key(s: &mut Scn, name: &str, v: Value) {
    if let Some(p) = s.proof.as_mut() {
        for k in ["kid", "jwk", "x5c"] {
            p.unset_header(k);
        }
        p.set_header(name, v);
    }
}

fn claim(r: &mut Rng, n: usize, name: &str) -> Vec<Job> {
    let mut s = honest(r);
    let t = long(r, n);
    if let Some(p) = s.proof.as_mut() {
        p.set_body(name, json!(t));
    }
    if r.flip() {
        // as expected
        match name {
            "nonce" => {
                if let Some(o) = s.opts.as_mut().filter(|o| o["c_nonce"].is_object()) {
                    o["c_nonce"]["expected_c_nonce"] = json!(t);
                }
            }
            "aud" => s.meta["credential_issuer"] = json!(t),
            _ => {}
        }
    }
    eval_jobs(&s)
}

fn header(r: &mut Rng, n: usize, name: &str) -> Vec<Job> {
    let mut s = honest(r);
    let t = long(r, n);
    match name {
        "kid" => {
            let prefix = *r.pick(&["", "did:x:y#", "did:x:y", "did:x:y?a="]);
            set_key(&mut s, "kid", json!(format!("{prefix}{t}")));
        }
        "jwk" => {
            let v = if r.flip() { json!({"kty": "OKP", "crv": "Ed25519", "x": t}) } else { json!(t) };
            set_key(&mut s, "jwk", v);
        }
        "x5c" => set_key(&mut s, "x5c", json!([t])),
        k => {
            if let Some(p) = s.proof.as_mut() {
                p.set_header(k, json!(t));
            }
        }
    }
    eval_jobs(&s)
}

fn did_path(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut s = honest(r);
    let unit = *r.pick(&[":a", "/a", "?a=b", "&a=b", "#a", "%20", ".", "::"]);
    let did = format!("did:x:y{}", unit.repeat(n / unit.len()));
    let kid = if r.flip() { format!("{did}#k") } else { did.clone() };
    set_key(&mut s, "kid", json!(kid));
    s.doc = Some(json!({"@context": "https://www.w3.org/ns/did/v1", "id": did, "verificationMethod": [method(r, &kid, &did, true)]}));
    eval_jobs(&s)
}

fn signature_long(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut s = honest(r);
    let t = long(r, n);
    if let Some(p) = s.proof.as_mut() {
        p.sig = Some(t);
    }
    eval_jobs(&s)
}

fn raw_token(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut s = honest(r);
    s.raw = Some(match r.below(3) {
        0 => long(r, n),
        1 => b64(long(r, n)),
        _ => format!("{}.{}", b64(long(r, n / 2)), b64(long(r, n / 2))),
    });
    eval_jobs(&s)
}

fn token_parts(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut s = honest(r);
    let jwt = s.jwt().unwrap_or_default();
    s.raw = Some(match r.below(3) {
        0 => ".".repeat(n),
        1 => format!("{jwt}{}", ".a".repeat(n / 2)),
        _ => vec![jwt.as_str(); n / jwt.len().max(1) + 1].join("."),
    });
    eval_jobs(&s)
}

fn token_jobs(code: Option<String>, pin: Option<u64>, o: Value) -> Vec<Job> {
    let mut out = vec![];
    let size = o.to_string().len() + code.as_ref().map_or(0, String::len);
    through::<CredentialOffer>("reading offer", &o, &mut out);
    let wire = json!({"grant_type": {"grant_type": PRE, "pre_authorized_code": code, "user_pin": pin}});
    through::<AccessTokenRequest>("reading token request", &wire, &mut out);
    let (Ok(q), Ok(opts)) = (token_request(code.as_deref(), pin), token_opts(true, Some(1234))) else { return out };
    out.push(job("evaluate token request", size, move || {
        match AccessToken::evaluate_access_token_request(&q, Some(build::offer(&o)), opts.clone()) {
            Ok(()) => (),
            Err(e) => used(e.information().to_string()),
        }
    }));
    out
}

fn code(r: &mut Rng, n: usize) -> Vec<Job> {
    let c = long(r, n);
    let auth = if r.flip() { Some(json!({ "issuer_state": long(r, n) })) } else { None };
    let other = if r.flip() { c.clone() } else { near(r, &c).0 };
    let pin = match r.below(4) {
        0 => None,
        1 => Some(1234),
        2 => Some(u64::MAX - r.below(3) as u64),
        _ => Some(r.u64() >> r.below(64)),
    };
    token_jobs(Some(other), pin, offer("i", vec![json!("a")], auth, Some(json!({"pre-authorized_code": c, "user_pin_required": r.flip()}))))
}

fn offer_jobs(meta: &Value, creds: &Value, endpoint: Option<String>, pre: Value, out: &mut Vec<Job>) {
    let size = meta.to_string().len() + creds.to_string().len() + pre.to_string().len() + endpoint.as_ref().map_or(0, String::len);
    let (m, c, p) = (build::metadata(meta), creds.clone(), build::pre_flow(&pre));
    out.push(job("create offer", size, move || match CredentialIssuer::create_offer(&m, build::credential_or_ids(&c), &endpoint, &None, &p) {
        Ok((o, u)) => {
            used(serde_json::to_string(&o));
            used(o.url_encode());
            used(u);
        }
        Err(e) => used(e.information().to_string()),
    }));
    let (m, list) = (build::metadata(meta), build::credential_or_ids(creds));
    if creds.as_array().map_or(0, Vec::len) > 0 {
        out.push(job("resolve all", size, move || used(list.resolve_all(&m).is_ok())));
    }
    through::<CredentialOrIds>("reading credential list", creds, out);
}

fn meta_jobs(meta: &Value, out: &mut Vec<Job>) {
    through::<CredentialIssuerMetadata>("reading issuer metadata", meta, out);
    let m = build::metadata(meta);
    let size = meta.to_string().len();
    let ids = ids_of(meta);
    let last = CredentialOrId::CredentialId(ids.last().cloned().unwrap_or_default());
    out.push(job("validate issuer metadata", size, move || {
        used(m.validate());
        used(last.resolve(&m).is_ok());
        used(CredentialOrId::CredentialId("not there".into()).resolve(&m).map_err(|e| e.information().to_string()));
    }));
}

fn id_long(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut m = metadata(r);
    let id = long(r, n / 2);
    m["credentials_supported"] = json!([{"id": id, "format": "jwt_vc_json", "types": []}]);
    let asked = if r.flip() { id } else { near(r, &id).0 };
    let mut out = vec![];
    meta_jobs(&m, &mut out);
    offer_jobs(&m, &json!([asked]), None, json!({"pre-authorized_code": "c"}), &mut out);
    out
}

fn endpoint(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut out = vec![];
    let e = format!("{}{}", r.pick(&["", "https://x?", "https://x/"]), long(r, n));
    let pre = json!({ "pre-authorized_code": long(r, n / 8) });
    offer_jobs(&metadata(r), &json!([]), Some(e), pre, &mut out);
    out
}

fn supported_many(r: &mut Rng, n: usize) -> Vec<Job> {
    let len = *r.pick(&[1usize, 8, 60]);
    let k = n / (len + 50);
    let (same, none, stem) = (r.one_in(8), r.one_in(4), token(r, len));
    let list: Vec<Value> = (0..k)
        .map(|i| {
            let mut c = json!({"format": "jwt_vc_json", "types": []});
            if !none || i % 2 == 0 {
                c["id"] = if same { json!(stem) } else { json!(format!("{stem}{i}")) };
            }
            c
        })
        .collect();
    let mut m = metadata(r);
    m["credentials_supported"] = json!(list);
    let mut out = vec![];
    meta_jobs(&m, &mut out);
    let ids: Vec<Value> = ids_of(&m).into_iter().rev().take(8).map(|i| json!(i)).collect();
    offer_jobs(&m, &json!(ids), None, json!({"pre-authorized_code": "c"}), &mut out);
    let mut s = honest(r);
    s.meta["credentials_supported"] = m["credentials_supported"].clone();
    out.extend(eval_jobs(&s));
    out
}

fn offered_ids(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut m = metadata(r);
    let ids: Vec<Option<String>> = (0..8).map(|k| Some(format!("{}{k}", token(r, 5)))).collect();
    m["credentials_supported"] = ids.iter().map(|i| supported(r, i.clone())).collect();
    let list: Vec<Value> = (0..n / 10).map(|k| json!(ids[k % 8])).collect();
    let mut out = vec![];
    offer_jobs(&m, &json!(list), None, json!({"pre-authorized_code": "c"}), &mut out);
    let unknown: Vec<Value> = (0..n / 10).map(|k| json!(format!("unknown {k}"))).collect();
    offer_jobs(&m, &json!(unknown), None, json!({"pre-authorized_code": "c"}), &mut out);
    out.extend(token_jobs(Some("c".into()), None, offer("i", list, None, Some(json!({"pre-authorized_code": "c"})))));
    out
}

fn offered_profiles(r: &mut Rng, n: usize) -> Vec<Job> {
    let m = metadata(r);
    let one = json!({"format": *r.pick(&["jwt_vc_json", "mso_mdoc", "ldp_vc"]), "types": ["a"], "doctype": "d", "@context": ["c"]});
    let list = vec![one; n / 50];
    let mut out = vec![];
    offer_jobs(&m, &json!(list), None, json!({"pre-authorized_code": "c"}), &mut out);
    out.extend(token_jobs(Some("c".into()), None, offer("i", list, None, Some(json!({"pre-authorized_code": "c"})))));
    out
}

fn unknown_members(r: &mut Rng, n: usize) -> Vec<Job> {
    let same = token(r, 8);
    let names: Vec<String> = (0..n / 20).map(|k| format!("{same}{k}")).collect();
    let add = |v: &mut Value| {
        if let Some(o) = v.as_object_mut() {
            o.extend(names.iter().map(|k| (k.clone(), json!(k.len()))));
        }
    };
    let mut s = honest(r);
    if let Some(p) = s.proof.as_mut() {
        let side = r.flip();
        for k in &names {
            if side {
                p.header.push((k.clone(), json!(1)));
            } else {
                p.body.push((k.clone(), json!(1)));
            }
        }
    }
    let mut out = eval_jobs(&s);
    let mut t = honest(r);
    for v in [Some(&mut t.meta), Some(&mut t.format), t.offer.as_mut(), t.doc.as_mut(), t.opts.as_mut()].into_iter().flatten() {
        if r.flip() {
            add(v);
        }
    }
    meta_jobs(&t.meta, &mut out);
    out.extend(eval_jobs(&t));
    out
}

fn deep_members(r: &mut Rng, v: Value) -> Vec<Job> {
    let mut s = honest(r);
    if let Some(p) = s.proof.as_mut() {
        p.header.push(("x".into(), v.clone()));
        p.body.push(("y".into(), v.clone()));
    }
    let mut out = eval_jobs(&s);
    let mut t = honest(r);
    let name = *r.pick(&["x", "display", "claims"]);
    for d in [Some(&mut t.meta), Some(&mut t.format), t.offer.as_mut(), t.opts.as_mut()].into_iter().flatten() {
        d[name] = v.clone();
    }
    meta_jobs(&t.meta, &mut out);
    out.extend(eval_jobs(&t));
    if let Some(o) = &t.offer {
        through::<CredentialOffer>("reading offer", o, &mut out);
    }
    set_key(&mut t, "jwk", json!({"kty": "OKP", "x": v}));
    out.extend(eval_jobs(&t));
    out
}

fn methods(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut s = honest(r);
    let kid = s.kid().filter(|k| k.starts_with("did:")).unwrap_or_else(|| "did:x:y#k".into());
    let d = crate::oracle::did_of(&kid);
    let one = method(r, &kid, &d, true);
    let size = one.to_string().len();
    let k = n / size + 1;
    let mut list: Vec<Value> = (0..k)
        .map(|i| {
            let mut m = one.clone();
            m["id"] = json!(format!("{d}#other-{i}"));
            m
        })
        .collect();
    if r.flip() {
        list.push(one);
    }
    let relation = *r.pick(&["authentication", "assertionMethod", "keyAgreement"]);
    s.doc = Some(json!({"@context": "https://www.w3.org/ns/did/v1", "id": d, "verificationMethod": list, relation: (0..k).map(|i| format!("{d}#other-{i}")).collect::<Vec<_>>()}));
    set_key(&mut s, "kid", json!(kid));
    eval_jobs(&s)
}

fn format_jobs(f: Value) -> Vec<Job> {
    let mut out = vec![];
    through::<CredentialFormatProfile>("reading format profile", &f, &mut out);
    through::<CredentialOrIds>("reading credential list", &json!([f]), &mut out);
    through::<CredentialSuccessResponse>("reading credential response", &json!({"format": f["format"], "credential": f}), &mut out);
    let mut req = f.clone();
    req["proof"] = Value::Null;
    through::<CredentialRequest>("reading credential request", &req, &mut out);
    let mut meta = json!({"credential_issuer": "i", "credential_endpoint": "e", "credentials_supported": [f]});
    meta["credentials_supported"][0]["id"] = json!("x");
    through::<CredentialIssuerMetadata>("reading issuer metadata", &meta, &mut out);
    if serde_json::from_value::<CredentialFormatProfile>(f.clone()).is_ok() {
        let (m, size) = (build::metadata(&meta), f.to_string().len());
        let wanted = build::credential_or_id(&f);
        out.push(job("resolve", size, move || used(wanted.resolve(&m).is_ok())));
        let q = build::request(&req);
        let (g, a) = (f.clone(), f["types"].to_string());
        out.push(job("credential response", size, move || {
            let c = CredentialOrAcceptanceToken::Credential(build::profile(&g));
            used(CredentialIssuer::create_credential_success_response(&q, Some(c), None).map(|x| serde_json::to_string(&x.0)));
            let t = CredentialOrAcceptanceToken::AcceptanceToken(a.clone());
            used(CredentialIssuer::create_credential_success_response(&q, Some(t), Some(CNonce { c_nonce: a.clone(), c_nonce_expires_in: None })).map(|x| serde_json::to_string(&x.0)));
        }));
        offer_jobs(&meta, &json!([f]), None, json!({"pre-authorized_code": "c"}), &mut out);
    }
    out
}

fn claims(r: &mut Rng, n: usize) -> Vec<Job> {
    let k = n / 60;
    let m: Map<String, Value> = (0..k).map(|i| (format!("claim{i}"), json!({"mandatory": true, "display": [{"name": "n", "locale": "l"}]}))).collect();
    let name = *r.pick(&["credentialSubject", "claims"]);
    format_jobs(json!({"format": if name == "claims" { "mso_mdoc" } else { "jwt_vc_json" }, "types": ["a"], "doctype": "d", name: m}))
}

fn displays(r: &mut Rng, n: usize) -> Vec<Job> {
    let k = n / 40;
    let list: Vec<Value> = (0..k).map(|i| json!({"name": token(r, 5), "locale": if i % 2 == 0 { "en".to_owned() } else { format!("l{i}") }})).collect();
    let mut out = format_jobs(json!({"format": "jwt_vc_json", "types": ["a"], "credentialSubject": {"a": {"display": list}}}));
    let mut m = metadata(r);
    m["credentials_supported"] = json!([{"format": "jwt_vc_json", "types": [], "display": list}]);
    meta_jobs(&m, &mut out);
    out
}

fn descriptions(r: &mut Rng, n: usize) -> Vec<Job> {
    let t = long(r, n);
    let mut out = vec![];
    let (a, b) = (t.clone(), t.clone());
    out.push(job("error information", 2 * t.len(), move || {
        used(CredentialIssuerError::CredentialIdNotInIssuerMetadata { id: a.clone() }.information().to_string());
        used(JwtError::NonceMismatch { expected_nonce: Some(a.clone()), actual_nonce: a.clone() }.information().to_string());
    }));
    out.push(job("error response", 2 * t.len(), move || {
        match AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, Some(b.clone()), Some(b.clone()), Some(json!({ "x": b }))) {
            Ok(v) => used(serde_json::to_string(&v)),
            Err(e) => used(e.information().to_string()),
        }
    }));
    out
}

fn detail_jobs(v: Value) -> Vec<Job> {
    let size = v.to_string().len();
    vec![job("error response", size, move || {
        match AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidRequest, None, None, Some(v.clone())) {
            Ok(v) => used(serde_json::to_string(&v)),
            Err(e) => used(e.information().to_string()),
        }
    })]
}

fn nested_errors(r: &mut Rng, n: usize) -> Vec<Job> {
    use openid4vci::access_token::error::AccessTokenError as E;
    let mut e = errors::gen_at(r, 1).0;
    for k in 0..n {
        let leaf = Box::new(E::UserPinMismatch);
        e = if k % 2 == 0 {
            E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: leaf, pre_authorized_error: Box::new(e) }
        } else {
            E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(e), pre_authorized_error: leaf }
        };
    }
    vec![job("error information", 100 * (n + 1), move || {
        used(e.information().to_string());
        used(e.to_string());
        used(e.clone());
    })]
}

fn responses(r: &mut Rng, n: usize) -> Vec<Job> {
    let (t, u) = (long(r, n / 2), long(r, n / 2));
    let mut out = vec![];
    through::<AccessTokenSuccessResponse>("reading token response", &json!({"access_token": t, "token_type": "Bearer", "scope": u, "c_nonce": t}), &mut out);
    out.push(job("token response", 2 * n, move || {
        match AccessToken::create_access_token_success_response(t.clone(), AccessTokenType::Bearer, Some(1), Some(u.clone()), Some(t.clone()), Some(1), None, None) {
            Ok(v) => used(serde_json::to_string(&v.0)),
            Err(e) => used(e.information().to_string()),
        }
    }));
    out
}

// ------------------------------------------------------------------ C31

/// What is held must not grow faster than the arguments do.
pub fn memory_growth(ctx: &mut Ctx, r: &mut Rng) {
    let d = r.pick(DIMS);
    if d.kind == Kind::Deep {
        return;
    }
    ctx.class("arguments grown");
    let start = r.clone();
    let peaks = |ctx: &mut Ctx, n: usize| -> Vec<(&'static str, usize, i64)> {
        let jobs = (d.jobs)(&mut start.clone(), n);
        ctx.events += jobs.len() as u64;
        jobs.into_iter().map(|j| (j.operation, j.size, probe::memory(|| guarded(|| (j.run)())).1.peak)).collect()
    };
    let mut before = peaks(ctx, 4 << 10);
    let mut suspects: Vec<usize> = vec![];
    for k in 1..4 {
        let now = peaks(ctx, (4 << 10) << (2 * k));
        if now.len() != before.len() {
            return;
        }
        let mut still = vec![];
        for i in 0..now.len() {
            let ((op, s0, p0), (_, s1, p1)) = (before[i], now[i]);
            // four times the size: the peak of a growing vector can double twice more, its square has sixteen times
            let grown = s1 as i64 / (s0 as i64).max(1) + 1;
            if p1 > 1 << 20 && p1 > 2 * grown * p0.max(1024) + p0 {
                if suspects.contains(&i) {
                    ctx.violation(
                        format!("{op} holds {p1} bytes at once for arguments of {s1} bytes, and {p0} for {s0}: more than in proportion"),
                        json!({"direction": d.class(), "operation": op}),
                    );
                    return;
                }
                still.push(i);
            }
        }
        suspects = still;
        before = now;
    }
    ctx.decided(&(d.name, hash_of(&start.clone().u64())), true);
}

// ------------------------------------------------------------------ C34

const LIMIT: Duration = Duration::from_millis(400);
const ENDLESS: Duration = Duration::from_secs(20);
static STOPPED: AtomicBool = AtomicBool::new(false);

fn tid() -> u64 {
    let l = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    l.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok()).unwrap_or(0)
}

enum Note {
    Thread(u64),
    Starts(&'static str, usize, Duration),
    Ended(Duration),
    Done,
}

fn case_time(ctx: &mut Ctx, r: &mut Rng) {
    if STOPPED.load(Ordering::Relaxed) {
        return;
    }
    let d = &DIMS[ctx.index as usize % DIMS.len()];
    let n = match d.kind {
        Kind::Deep => *r.pick(&[8usize, 20, 60, 110]),
        _ => *r.pick(&[4 << 10, 16 << 10, 60 << 10]),
    };
    let seed = r.u64();
    let (tx, rx) = mpsc::channel();
    // deep arguments and their like: a step at a time, so that a blow-up is seen before it lasts for ever
    let spawned = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let _ = tx.send(Note::Thread(tid()));
        let steps = if d.kind == Kind::Deep { vec![n / 4, n / 2, n] } else { vec![n / 8, n] };
        for n in steps {
            let Ok(jobs) = guarded(|| (d.jobs)(&mut Rng::new(seed), n)) else { break };
            for j in jobs {
                let _ = tx.send(Note::Starts(j.operation, j.size, busy()));
                let mut least = Duration::MAX;
                for _ in 0..5 {
                    let a = busy();
                    let _ = guarded(|| (j.run)());
                    least = least.min(busy().saturating_sub(a));
                    if least < LIMIT {
                        break;
                    }
                }
                let _ = tx.send(Note::Ended(least));
            }
        }
        let _ = tx.send(Note::Done);
    });
    if spawned.is_err() {
        ctx.problem("no thread");
        return;
    }
    let mut thread = 0;
    let mut current = ("", 0, Duration::ZERO);
    let w = |op: &str, size: usize| json!({"direction": d.class(), "steps": n, "operation": op, "bytes": size, "seed": seed});
    let mut waiting = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Note::Thread(t)) => thread = t,
            Ok(Note::Starts(op, size, at)) => {
                current = (op, size, at);
                waiting = Instant::now();
            }
            Ok(Note::Ended(t)) => {
                ctx.events += 1;
                ctx.class(&format!("operation: {}", current.0));
                ctx.class(match t.as_millis() {
                    0 => "under 1 ms",
                    1..=9 => "under 10 ms",
                    10..=49 => "under 50 ms",
                    50..=149 => "under 150 ms",
                    _ => "longer",
                });
                if t > LIMIT {
                    ctx.violation(format!("{} takes {} ms of processor time for arguments of {} bytes", current.0, t.as_millis(), current.1), w(current.0, current.1));
                }
            }
            Ok(Note::Done) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if STOPPED.load(Ordering::Relaxed) {
                    return;
                }
                let spent = busy_of(thread).map_or(Duration::ZERO, |b| b.saturating_sub(current.2));
                if waiting.elapsed() > ENDLESS && spent > ENDLESS {
                    STOPPED.store(true, Ordering::Relaxed);
                    return ctx.violation(format!("{} does not end: {} s of processor time for arguments of {} bytes", current.0, spent.as_secs(), current.1), w(current.0, current.1));
                }
                if waiting.elapsed() > Duration::from_secs(200) {
                    STOPPED.store(true, Ordering::Relaxed);
                    return ctx.problem(format!("{} has not ended in 200 s, with {} ms of processor time", current.0, spent.as_millis()));
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                ctx.problem("the measuring thread ended early");
                return;
            }
        }
    }
    ctx.class(&d.class());
    ctx.decided(&(d.name, n, seed), true);
    ctx.sample(|| w("", 0));
}
