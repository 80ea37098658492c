//! C35: what a document must have to be read at all, and what must not change its reading.
use crate::beyond::document;
use crate::core::{guarded, Ctx, Rng};
use crate::dict;
use crate::gen::*;
use crate::Def;
use openid4vci::access_token::{AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions, GrantType};
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialOffer, CredentialOfferGrants, CredentialOrId, CredentialOrIds, CredentialSuccessResponse,
    EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::ProofJwt;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::CredentialRequest;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub const K_FORMAT: &str = "a number in the place of the format's name is read as the format at that position (inside metadata, offers, requests and responses)";

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C35",
        quick: 960_000,
        thorough: 3_840_000,
        case: case_strict,
        extra: None,
        required: &[
            "missing metadata.credential_issuer", "missing metadata.credential_endpoint", "missing metadata.credentials_supported", "missing supported.format",
            "missing supported.types", "missing supported.doctype", "missing supported.@context", "missing display.name", "missing offer.credential_issuer",
            "missing offer.credentials", "missing pre.pre-authorized_code", "missing request.format", "missing request.types", "missing request.doctype",
            "missing request.@context", "missing proof.jwt", "missing profile.format", "missing profile.types", "missing profile.doctype", "missing profile.@context",
            "missing token request.grant_type", "missing grant.grant_type", "missing grant.pre_authorized_code", "missing token response.access_token",
            "missing token response.token_type", "missing credential response.format", "missing nonce.c_nonce", "missing nonce options.c_nonce_expires_in",
            "missing nonce options.expected_c_nonce", "missing nonce options.c_nonce_created_at", "null offer.credential_issuer", "null pre.pre-authorized_code",
            "ill-typed pre.user_pin_required", "ill-typed pre.pre-authorized_code", "ill-typed offer.grants", "ill-typed supported.id", "ill-typed proof.jwt",
            "ill-typed request.proof", "ill-typed grant.user_pin", "ill-typed nonce options.c_nonce_created_at", "ill-typed options.client_id", "ill-typed element",
            "ill-typed credential list", "ill-typed: the value itself in another form", "unknown member in metadata", "unknown member in supported", "unknown member in offer", "unknown member in grants", "unknown member in pre",
            "unknown member in auth", "unknown member in request", "unknown member in proof", "unknown member in token request", "unknown member in grant",
            "unknown member in profile", "unknown member in display", "unknown member in logo", "unknown member in claim display", "unknown member in token response",
            "unknown member in credential response", "unknown member in options", "twice in offer", "twice in pre", "twice in grant", "twice in proof", "twice in supported",
            "twice in request", "twice: refused", "token: header parameter twice", "token: claim twice", "token: unknown header parameter", "token: unknown claim",
        ],
        rule: "one case = a document the library reads, changed in one place (a required member dropped, or made null; a value of another JSON type; a member nobody knows; a member twice) and read again; the first three must be refused, the fourth must change nothing, the fifth must be refused or count as the last occurrence; likewise for repeated and unknown header parameters and claims of proofs; non-trivial = distinct changed document",
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Str,
    Date,
    Bool,
    U32,
    /// a number now, a text of digits in the specification
    Pin,
    Format,
    Grant,
    TokenType,
    Strs,
    Arr(&'static K),
    Map(&'static K),
    /// an object of no further interest
    AnyMap,
    Obj(&'static str),
    Context,
    CredOrId,
    Credential,
}

struct Mem {
    name: &'static str,
    alias: &'static str,
    required: bool,
    k: K,
}

fn m(name: &'static str, required: bool, k: K) -> Mem {
    Mem { name, alias: "", required, k }
}

fn profile_members(v: &Value) -> Vec<Mem> {
    let mut l = vec![m("format", true, K::Format)];
    match v["format"].as_str() {
        Some("mso_mdoc") => {
            l.push(m("doctype", true, K::Str));
            l.push(m("claims", false, K::AnyMap));
        }
        f => {
            if f == Some("ldp_vc") {
                l.push(m("@context", true, K::Arr(&K::Context)));
            }
            l.push(m("types", true, K::Strs));
            l.push(m("credentialSubject", false, K::Map(&K::Obj("claim"))));
        }
    }
    l.push(m("order", false, K::Strs));
    l
}

fn members(ty: &str, v: &Value) -> Vec<Mem> {
    match ty {
        "metadata" => vec![
            m("credential_issuer", true, K::Str),
            m("authorization_server", false, K::Str),
            m("credential_endpoint", true, K::Str),
            m("batch_credential_endpoint", false, K::Str),
            m("credentials_supported", true, K::Arr(&K::Obj("supported"))),
        ],
        "supported" => {
            let mut l = profile_members(v);
            l.push(m("id", false, K::Str));
            l.push(Mem { alias: "cryptographic_binding_mehtods_supported", ..m("cryptographic_binding_methods_supported", false, K::Strs) });
            l.push(m("cryptographic_suites_supported", false, K::Strs));
            l.push(m("display", false, K::Arr(&K::Obj("display"))));
            l
        }
        "profile" => profile_members(v),
        "request" => {
            let mut l = profile_members(v);
            l.push(m("proof", false, K::Obj("proof")));
            l
        }
        "proof" => vec![m("proof_type", false, K::Str), m("jwt", true, K::Str)],
        "claim" => vec![
            m("mandatory", false, K::Bool),
            Mem { alias: "valueType", ..m("value_type", false, K::Str) },
            m("display", false, K::Arr(&K::Obj("claim display"))),
        ],
        "claim display" => vec![m("name", false, K::Str), m("locale", false, K::Str)],
        "display" => vec![
            m("name", true, K::Str),
            m("locale", false, K::Str),
            m("logo", false, K::Obj("logo")),
            m("description", false, K::Str),
            m("background_color", false, K::Str),
            m("text_color", false, K::Str),
        ],
        "logo" => vec![m("url", false, K::Str), m("alt_text", false, K::Str)],
        "offer" => vec![m("credential_issuer", true, K::Str), m("credentials", true, K::Arr(&K::CredOrId)), m("grants", false, K::Obj("grants"))],
        "grants" => vec![m("authorization_code", false, K::Obj("auth")), m(PRE, false, K::Obj("pre"))],
        "auth" => vec![m("issuer_state", false, K::Str)],
        "pre" => vec![m("pre-authorized_code", true, K::Str), m("user_pin_required", false, K::Bool)],
        "token request" => vec![m("grant_type", true, K::Obj("grant"))],
        "grant" => {
            let mut l = vec![m("grant_type", true, K::Grant)];
            if v["grant_type"] == PRE {
                l.push(m("pre_authorized_code", true, K::Str));
                l.push(m("user_pin", false, K::Pin));
            }
            l
        }
        "token response" => vec![
            m("access_token", true, K::Str),
            m("token_type", true, K::TokenType),
            m("expires_in", false, K::U32),
            m("scope", false, K::Str),
            m("c_nonce", false, K::Str),
            m("c_nonce_expires_in", false, K::U32),
            m("authorization_pending", false, K::Bool),
            m("interval", false, K::U32),
        ],
        "credential response" => vec![
            m("format", true, K::Str),
            m("credential", false, K::Credential),
            m("acceptance_token", false, K::Str),
            m("c_nonce", false, K::Str),
            m("c_nonce_expires_in", false, K::U32),
        ],
        "nonce" => vec![m("c_nonce", true, K::Str), m("c_nonce_expires_in", false, K::U32)],
        "nonce options" => vec![m("c_nonce_expires_in", true, K::U32), m("expected_c_nonce", true, K::Str), m("c_nonce_created_at", true, K::Date)],
        "options" => vec![m("c_nonce", false, K::Obj("nonce options")), m("client_id", false, K::Str)],
        "token options" => vec![m("expected_user_pin", false, K::Pin)],
        _ => vec![],
    }
}

/// Names that the specification gives a meaning where the library has none (findings of C26).
const SPEC: &[&str] = &[
    "credential_definition", "@context", "types", "doctype", "claims", "order", "credentialSubject", "id", "display", "format", "proof", "type", "cwt", "pre-authorized_code",
    "pre_authorized_code", "user_pin", "code", "redirect_uri", "client_id", "code_verifier", "crit", "b64", "kid", "jwk", "x5c",
];

#[derive(Clone, Debug)]
enum Step {
    Name(String),
    At(usize),
}

fn at<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    path.iter().fold(v, |v, s| match s {
        Step::Name(n) => &mut v[n.as_str()],
        Step::At(i) => &mut v[*i],
    })
}

/// A place in a document: an object of a known type, or a value of a known kind.
struct Place {
    path: Vec<Step>,
    object: Option<&'static str>,
    element: Option<K>,
}

fn walk(v: &Value, k: K, path: &mut Vec<Step>, out: &mut Vec<Place>) {
    match (k, v) {
        (K::Obj(ty), Value::Object(o)) => {
            out.push(Place { path: path.clone(), object: Some(ty), element: None });
            for x in members(ty, v) {
                if let Some(w) = o.get(x.name) {
                    path.push(Step::Name(x.name.into()));
                    walk(w, x.k, path, out);
                    path.pop();
                }
            }
        }
        (K::CredOrId | K::Credential, Value::Object(_)) => walk(v, K::Obj("profile"), path, out),
        (K::Strs, _) => walk(v, K::Arr(&K::Str), path, out),
        (K::Arr(k), Value::Array(a)) => {
            for (i, w) in a.iter().enumerate() {
                path.push(Step::At(i));
                out.push(Place { path: path.clone(), object: None, element: Some(*k) });
                walk(w, *k, path, out);
                path.pop();
            }
        }
        (K::Map(k), Value::Object(o)) => {
            for (n, w) in o {
                path.push(Step::Name(n.clone()));
                out.push(Place { path: path.clone(), object: None, element: Some(*k) });
                walk(w, *k, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn number(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(0),
        1 => json!(1),
        2 => json!(r.range(-5, 5)),
        3 => json!(1.5),
        4 => json!(r.u64()),
        _ => json!(r.range(0, 100_000)),
    }
}

fn words(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(""),
        1 => json!("null"),
        2 => json!("true"),
        3 => json!("[]"),
        4 => json!("{}"),
        _ => json!(text(r)),
    }
}

/// A value of another JSON type (never null, never an array for an object, nor an object for a name).
fn ill_typed(r: &mut Rng, k: K) -> Value {
    let scalar = |r: &mut Rng| if r.flip() { number(r) } else { json!(r.flip()) };
    let list = |r: &mut Rng| if r.flip() { json!([]) } else { json!([text(r)]) };
    let object = |r: &mut Rng| if r.flip() { json!({}) } else { json!({ text(r): text(r) }) };
    match k {
        K::Str => match r.below(4) {
            0 => list(r),
            1 => object(r),
            _ => scalar(r),
        },
        K::Date => match r.below(6) {
            0 => list(r),
            1 => object(r),
            2 => json!(*r.pick(&["", "now", "yesterday", "2023-13-01T00:00:00Z", "2023-02-30T00:00:00Z", "2023-01-01T25:00:00Z", "2023-01-01", "12:00:00Z", "1700000000"])),
            3 => json!(r.flip()),
            _ => json!(1.5),
        },
        K::Bool => match r.below(5) {
            0 => json!(*r.pick(&["true", "false", "", "yes", "0", "1"])),
            1 => list(r),
            2 => object(r),
            _ => number(r),
        },
        K::U32 | K::Pin => match r.below(8) {
            0 => json!(-r.range(1, 100_000)),
            1 => json!(*r.pick(&[0.5, -0.5, 1.5, 1e300, -1e300])),
            2 if k == K::U32 => json!(*r.pick(&[1_u64 << 32, (1 << 32) + 5, u64::MAX, 1 << 40])),
            2 => json!(18_446_744_073_709_551_616.0),
            3 => list(r),
            4 => object(r),
            5 if k != K::Pin => json!(*r.pick(&["0", "5", "", "60", "1e3"])),
            _ => json!(r.flip()),
        },
        K::Format => match r.below(6) {
            0 => list(r),
            1 => json!(r.flip()),
            2 => {
                let f = *r.pick(FORMATS);
                let t = match r.below(4) {
                    0 => f.to_uppercase(),
                    1 => format!("{f} "),
                    2 => f.replace('_', "-"),
                    _ => near(r, f).0,
                };
                if FORMATS.contains(&t.as_str()) {
                    json!("vc+sd-jwt")
                } else {
                    json!(t)
                }
            }
            3 => json!(*r.pick(&["", "jwt_vc", "ldp_vp", "jwt_vp_json", "vc+sd-jwt", "ac_vc", "mdoc", "JwtVcJson"])),
            _ => number(r),
        },
        K::Grant => match r.below(4) {
            0 => json!(*r.pick(&["", "implicit", "password", "client_credentials", "refresh_token", "pre-authorized_code", "AuthorizedCodeFlow", "authorization_Code"])),
            1 => list(r),
            2 => json!(r.flip()),
            _ => number(r),
        },
        K::TokenType => match r.below(4) {
            0 => json!(*r.pick(&["", "DPoP", "MAC", "N_A", "Bearer ", "Bearers", "Token"])),
            1 => list(r),
            2 => json!(r.flip()),
            _ => number(r),
        },
        K::Strs | K::Arr(_) => match r.below(4) {
            0 => object(r),
            1 => words(r),
            _ => scalar(r),
        },
        K::Map(_) | K::AnyMap => match r.below(4) {
            0 => list(r),
            1 => words(r),
            _ => scalar(r),
        },
        K::Obj(_) => {
            if r.one_in(3) {
                words(r)
            } else {
                scalar(r)
            }
        }
        K::Context | K::CredOrId | K::Credential => {
            if r.one_in(3) && k != K::CredOrId {
                list(r)
            } else {
                scalar(r)
            }
        }
    }
}

/// The right value in a form of another JSON type: a list of it, its only element, its text.
fn disguised(r: &mut Rng, k: K, v: &Value) -> Option<Value> {
    Some(match (k, v) {
        (K::Str | K::Date | K::Format | K::Grant | K::TokenType, Value::String(_)) => json!([v]),
        (K::Bool, Value::Bool(b)) => match r.below(3) {
            0 => json!(b.to_string()),
            1 => json!([v]),
            _ => json!(u8::from(*b)),
        },
        (K::U32, Value::Number(n)) => {
            if r.flip() {
                json!(n.to_string())
            } else {
                json!([v])
            }
        }
        (K::Strs | K::Arr(_), Value::Array(a)) => match r.below(3) {
            0 if a.iter().all(Value::is_string) => json!(a.iter().filter_map(Value::as_str).collect::<Vec<_>>().join(*r.pick(&[" ", ","]))),
            1 => json!({ "0": a.first()? }),
            2 if r.one_in(3) => json!(v.to_string()),
            _ => a.first()?.clone(),
        },
        (K::Map(_) | K::AnyMap, Value::Object(_)) => match r.below(3) {
            0 => json!(v.to_string()),
            1 => json!([v]),
            _ => Value::Array(v.as_object()?.iter().map(|(k, x)| json!([k, x])).collect()),
        },
        (K::Obj(_), Value::Object(_)) => json!(v.to_string()),
        _ => return None,
    })
}

fn camel(s: &str) -> String {
    let mut up = false;
    s.chars()
        .filter_map(|c| {
            if c == '_' || c == '-' {
                up = true;
                return None;
            }
            let c = if up { c.to_ascii_uppercase() } else { c };
            up = false;
            Some(c)
        })
        .collect()
}

fn snake(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_ascii_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect()
}

fn unknown_name(r: &mut Rng, known: &[&str]) -> Option<String> {
    let one = if known.is_empty() { "name" } else { *r.pick(known) };
    let n = match r.below(12) {
        0 => camel(one),
        1 => snake(one),
        2 => one.to_uppercase(),
        3 => one.replace('_', "-"),
        4 => one.replace('-', "_"),
        5 => near(r, one).0,
        6 => {
            let mut c = one.chars();
            c.next().map_or(String::new(), |f| f.to_uppercase().chain(c).collect())
        }
        7 => dict::fresh_word(r, 1)?,
        8 => (*r.pick(&[
            "nonce", "iss", "sub", "aud", "pin", "tx_code", "scope", "credential_identifier", "credential_identifiers", "c_nonce_lifetime", "issuer", "state", "expires", "alg", "typ",
            "extra", "", "$schema", "@type", "_", "name", "url", "uri", "locale", "lang", "value", "interval", "user_pin_required", "implicit", "transaction_id", "error",
            "error_description", "x5t", "jku", "cty", "jti", "notification_id", "pre-authorised_code", "issuerState", "kind", "version", "t", "key", "0",
        ]))
        .to_owned(),
        9 => text(r),
        _ => format!("x-{}", token(r, 5)),
    };
    (!known.contains(&n.as_str()) && !SPEC.contains(&n.as_str())).then_some(n)
}

/// The text of a document, with one more member at the start or the end of the object at `path`.
fn with_twice(v: &Value, path: &[Step], name: &str, x: &Value, first: bool, out: &mut String) {
    match v {
        Value::Object(o) => {
            out.push('{');
            let mut parts: Vec<String> = vec![];
            for (k, w) in o {
                let mut t = format!("{}:", json!(k));
                match path.first() {
                    Some(Step::Name(n)) if n == k => with_twice(w, &path[1..], name, x, first, &mut t),
                    _ => t += &w.to_string(),
                }
                parts.push(t);
            }
            if path.is_empty() {
                let t = format!("{}:{x}", json!(name));
                if first {
                    parts.insert(0, t);
                } else {
                    parts.push(t);
                }
            }
            *out += &parts.join(",");
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, w) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                match path.first() {
                    Some(Step::At(n)) if *n == i => with_twice(w, &path[1..], name, x, first, out),
                    _ => *out += &w.to_string(),
                }
            }
            out.push(']');
        }
        v => *out += &v.to_string(),
    }
}

fn read<T: DeserializeOwned + Serialize>(text: &str, how: usize) -> Result<Value, String> {
    let v: Result<T, serde_json::Error> = match how {
        0 => serde_json::from_str(text),
        1 => serde_json::from_slice(text.as_bytes()),
        2 => serde_json::from_reader(text.as_bytes()),
        _ => serde_json::from_str::<Value>(text).and_then(serde_json::from_value),
    };
    v.map(|v| serde_json::to_value(&v).unwrap_or_default()).map_err(|e| e.to_string())
}

type Reader = fn(&str, usize) -> Result<Value, String>;
const KINDS: &[(&str, K, Reader)] = &[
    ("issuer metadata", K::Obj("metadata"), read::<CredentialIssuerMetadata>),
    ("supported credential", K::Obj("supported"), read::<CredentialSupported>),
    ("offer", K::Obj("offer"), read::<CredentialOffer>),
    ("grants", K::Obj("grants"), read::<CredentialOfferGrants>),
    ("authorization flow", K::Obj("auth"), read::<AuthorizedCodeFlow>),
    ("pre-authorized flow", K::Obj("pre"), read::<PreAuthorizedCodeFlow>),
    ("credential request", K::Obj("request"), read::<CredentialRequest>),
    ("token request", K::Obj("token request"), read::<AccessTokenRequest>),
    ("grant type", K::Obj("grant"), read::<GrantType>),
    ("format profile", K::Obj("profile"), read::<CredentialFormatProfile>),
    ("credential list", K::Arr(&K::CredOrId), read::<CredentialOrIds>),
    ("credential or id", K::CredOrId, read::<CredentialOrId>),
    ("token response", K::Obj("token response"), read::<AccessTokenSuccessResponse>),
    ("credential response", K::Obj("credential response"), read::<CredentialSuccessResponse>),
    ("nonce", K::Obj("nonce"), read::<CNonce>),
    ("nonce options", K::Obj("nonce options"), read::<CNonceOptions>),
    ("credential options", K::Obj("options"), read::<EvaluateCredentialRequestOptions>),
    ("token options", K::Obj("token options"), read::<EvaluateAccessTokenRequestOptions>),
];

fn case_strict(ctx: &mut Ctx, r: &mut Rng) {
    if r.one_in(8) {
        return case_token(ctx, r);
    }
    let (kind, k, reader) = KINDS[r.below(KINDS.len())];
    let doc = document(r, kind);
    let how = r.below(4);
    let get = |ctx: &mut Ctx, t: &str, how: usize| {
        ctx.events += 1;
        match guarded(|| reader(t, how)) {
            Ok(x) => Some(x),
            Err(p) => {
                ctx.violation(format!("reading a {kind} panicked: {p}"), json!(t));
                None
            }
        }
    };
    let Some(base) = get(ctx, &doc.to_string(), how) else { return };
    let Ok(base) = base else {
        // (that documents of this kind are read is C25 and C26)
        ctx.class("not read unchanged");
        return;
    };
    let mut places = vec![];
    if let K::Arr(_) = k {
        places.push(Place { path: vec![], object: None, element: Some(k) });
    }
    if k == K::CredOrId {
        places.push(Place { path: vec![], object: None, element: Some(k) });
    }
    walk(&doc, k, &mut vec![], &mut places);
    // objects first: there are far more plain elements
    let objects: Vec<usize> = (0..places.len()).filter(|i| places[*i].object.is_some()).collect();
    if places.is_empty() {
        return;
    }
    let p = if !objects.is_empty() && !r.one_in(5) { &places[*r.pick(&objects)] } else { &places[r.below(places.len())] };
    let mut changed = doc.clone();
    let refused = |ctx: &mut Ctx, r: &mut Rng, what: String, changed: &Value, format_number: bool| {
        let t = changed.to_string();
        ctx.decided(&(kind, &t), true);
        let how = if r.flip() { 0 } else { r.below(4) };
        if let Some(Ok(got)) = get(ctx, &t, how) {
            if format_number {
                return ctx.known(K_FORMAT, || format!("{kind} {}", t.chars().take(120).collect::<String>()));
            }
            ctx.violation(format!("a {kind} is read with {what}"), json!({"document": changed, "read": got}));
        }
        ctx.sample(|| json!({"document": changed, "with": what}));
    };
    let Some(ty) = p.object else {
        let k = p.element.unwrap_or(K::Str);
        let null = matches!(k, K::Str | K::Obj(_) | K::Context | K::CredOrId | K::Strs | K::Arr(_)) && r.one_in(6);
        *at(&mut changed, &p.path) = if null { Value::Null } else { ill_typed(r, k) };
        ctx.class(if p.path.is_empty() { "ill-typed credential list" } else { "ill-typed element" });
        return refused(ctx, r, format!("an element of another type at {:?}", p.path), &changed, false);
    };
    let here = at(&mut changed, &p.path).clone();
    let known = members(ty, &here);
    match r.below(8) {
        0 | 1 => {
            let required: Vec<&Mem> = known.iter().filter(|x| x.required && here.get(x.name).is_some()).collect();
            if required.is_empty() {
                return;
            }
            let x = *r.pick(&required);
            let null = r.one_in(3);
            if let Value::Object(o) = at(&mut changed, &p.path) {
                o.remove(x.name);
                if null {
                    o.insert(x.name.to_owned(), Value::Null);
                } else if r.one_in(4) {
                    // something like it is not it
                    let names: Vec<&str> = known.iter().flat_map(|x| [x.name, x.alias]).filter(|n| !n.is_empty()).collect();
                    if let Some(n) = unknown_name(r, &names) {
                        if !o.contains_key(&n) {
                            o.insert(n, here[x.name].clone());
                        }
                    }
                }
            }
            ctx.class(&format!("{} {ty}.{}", if null { "null" } else { "missing" }, x.name));
            refused(ctx, r, format!("{ty}.{} {}", x.name, if null { "null" } else { "missing" }), &changed, false);
        }
        2..=4 => {
            // a member that is absent takes an ill-typed value as well
            let x = r.pick(&known);
            let bad = if r.one_in(4) { disguised(r, x.k, &here[x.name]) } else { None };
            if bad.is_some() {
                ctx.class("ill-typed: the value itself in another form");
            }
            let bad = bad.unwrap_or_else(|| ill_typed(r, x.k));
            let index = bad.as_u64();
            at(&mut changed, &p.path)[x.name] = bad;
            ctx.class(&format!("ill-typed {ty}.{}", x.name));
            let format_number = x.k == K::Format && index.map_or(false, |n| n < FORMATS.len() as u64) && !(p.path.is_empty() && ty == "profile" && kind == "format profile");
            refused(ctx, r, format!("an ill-typed {ty}.{}", x.name), &changed, format_number);
        }
        5 | 6 => {
            if ty == "claim" {
                return;
            }
            let names: Vec<&str> = known.iter().flat_map(|x| [x.name, x.alias]).filter(|n| !n.is_empty()).collect();
            let mut added = vec![];
            for _ in 0..1 + r.below(2) {
                let Some(n) = unknown_name(r, &names) else { continue };
                let x = match r.below(3) {
                    0 => here.as_object().and_then(|o| o.values().next().cloned()).unwrap_or_default(),
                    _ => any_json(r, 2),
                };
                if let Value::Object(o) = at(&mut changed, &p.path) {
                    if !o.contains_key(&n) {
                        o.insert(n.clone(), x);
                        added.push(n);
                    }
                }
            }
            if added.is_empty() {
                return;
            }
            ctx.class(&format!("unknown member in {ty}"));
            let t = changed.to_string();
            ctx.decided(&(kind, &t), true);
            let Some(got) = get(ctx, &t, how) else { return };
            let same = match &got {
                Err(_) => false,
                Ok(v) => {
                    let mut v = v.clone();
                    if ty == "metadata" {
                        if let Value::Object(o) = &mut v {
                            added.iter().for_each(|n| drop(o.remove(n)));
                        }
                    }
                    v == base
                }
            };
            ctx.check(same, || format!("unknown members {added:?} in {ty} change how a {kind} is read"), || json!({"document": changed, "read": format!("{got:?}"), "without": base}));
            ctx.sample(|| json!({"document": changed, "unknown": added}));
        }
        _ => {
            let present: Vec<&Mem> = known.iter().filter(|x| here.get(x.name).is_some()).collect();
            if present.is_empty() {
                return;
            }
            let x = *r.pick(&present);
            let other = match r.below(4) {
                0 => here[x.name].clone(),
                1 => Value::Null,
                2 => ill_typed(r, x.k),
                _ => match x.k {
                    K::Str => json!(text(r)),
                    K::Bool => json!(!here[x.name].as_bool().unwrap_or(false)),
                    K::U32 | K::Pin => json!(r.below(1_000_000)),
                    K::Strs => strings(r, 2),
                    K::Format => json!(*r.pick(FORMATS)),
                    _ => here[x.name].clone(),
                },
            };
            let first = r.flip();
            let name = if !x.alias.is_empty() && r.one_in(4) { x.alias } else { x.name };
            let mut t = String::new();
            with_twice(&doc, &p.path, name, &other, first, &mut t);
            ctx.class(&format!("twice in {ty}"));
            if !first {
                at(&mut changed, &p.path)[x.name] = other.clone();
            }
            ctx.decided(&(kind, &t), true);
            // (a parsed value has forgotten the first)
            let how = how % 3;
            let Some(got) = get(ctx, &t, how) else { return };
            let Some(last) = get(ctx, &changed.to_string(), how) else { return };
            ctx.class(if got.is_err() { "twice: refused" } else { "twice: last counts" });
            if got.is_ok() && got != last {
                ctx.violation(
                    format!("a {kind} with two {ty}.{name} is read, and not as with the last of them alone"),
                    json!({"document": t, "read": format!("{got:?}"), "last_alone": format!("{last:?}")}),
                );
            }
        }
    }
}

/// Repeated and unknown header parameters and claims.
fn case_token(ctx: &mut Ctx, r: &mut Rng) {
    let s = honest(r);
    let Some(p) = s.proof.clone() else { return };
    let render = |h: &[(String, Value)], b: &[(String, Value)]| {
        let t = format!("{}.{}", b64(render_object(h, 0)), b64(render_object(b, 0)));
        match &p.sig {
            Some(g) => format!("{t}.{g}"),
            None => t,
        }
    };
    let mut get = |t: &str| {
        ctx.events += 1;
        guarded(|| t.parse::<ProofJwt>().map(|p| serde_json::to_value(&p).unwrap_or_default()).map_err(|e| e.to_string()))
    };
    let (mut h, mut b) = (p.header.clone(), p.body.clone());
    let in_header = r.flip();
    let part = if in_header { &mut h } else { &mut b };
    if part.is_empty() {
        return;
    }
    if r.one_in(3) {
        let names: Vec<&str> = if in_header { vec!["typ", "alg", "kid", "jwk", "x5c"] } else { vec!["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"] };
        let Some(n) = unknown_name(r, &names) else { return };
        if part.iter().any(|(k, _)| *k == n) {
            return;
        }
        let x = if r.one_in(3) { part[0].1.clone() } else { any_json(r, 2) };
        let i = r.below(part.len() + 1);
        part.insert(i, (n.clone(), x));
        let (base, t) = (render(&p.header, &p.body), render(&h, &b));
        let (a, x) = (get(&base), get(&t));
        ctx.class(if in_header { "token: unknown header parameter" } else { "token: unknown claim" });
        ctx.decided(&t, true);
        ctx.check(a == x, || format!("an unknown member {n:?} of a proof changes how it is read"), || json!({"header": render_object(&h, 0), "claims": render_object(&b, 0), "read": format!("{x:?}"), "without": format!("{a:?}")}));
        return;
    }
    let i = r.below(part.len());
    let (name, value) = part[i].clone();
    let other = match r.below(5) {
        0 => value.clone(),
        1 => Value::Null,
        2 => ill_typed(r, K::Str),
        _ => match &value {
            Value::String(x) => json!(near(r, x).0),
            Value::Number(_) => json!(r.range(0, 4_000_000_000)),
            v => v.clone(),
        },
    };
    let first = r.flip();
    let (mut lh, mut lb) = (p.header.clone(), p.body.clone());
    if first {
        part.insert(0, (name.clone(), other));
    } else {
        part.push((name.clone(), other.clone()));
        (if in_header { &mut lh } else { &mut lb })[i].1 = other;
    }
    let (t, last) = (render(&h, &b), render(&lh, &lb));
    let (x, y) = (get(&t), get(&last));
    ctx.class(if in_header { "token: header parameter twice" } else { "token: claim twice" });
    ctx.decided(&t, true);
    if let Ok(Ok(_)) = &x {
        ctx.class("token: twice, last counts");
        ctx.check(
            x == y,
            || format!("a proof with two {name} is read, and not as with the last of them alone"),
            || json!({"header": render_object(&h, 0), "claims": render_object(&b, 0), "read": format!("{x:?}"), "last_alone": format!("{y:?}")}),
        );
    }
}

