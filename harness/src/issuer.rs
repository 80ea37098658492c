//! What the issuer creates: C12 (resolution), C13 (offers), C14 (links), C15/C16 (success responses).
use crate::api::{self, read};
use crate::build;
use crate::clock;
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::oracle::{self, lookup, same_json, Cond};
use crate::Def;
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};
use openid4vci::credential_issuer::{
    CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId, CredentialOrIds, CredentialSuccessResponse,
};
use openid4vci::types::credential::{CredentialFormatProfile, CredentialFormatProfileOrEncoded};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C12",
            quick: 480_000,
            thorough: 1_920_000,
            case: case_c12,
            extra: None,
            required: &[
                "exact id: resolved", "near id: refused", "unknown id: refused", "inline credential: itself", "empty id", "list: resolved",
                "list: refused", "list: repeated id", "list: several unknown ids", "id borrowed from the metadata: refused", "metadata without credentials", "entries without id", "id of the last entry",
            ],
            rule: "one case = issuer metadata without duplicate ids, single resolutions of exact, near and unknown ids and of inline credentials, and one list resolution; compared with a lookup over the JSON metadata; non-trivial = distinct (id list, query)",
        },
        Def {
            id: "C13",
            quick: 480_000,
            thorough: 1_920_000,
            case: case_c13,
            extra: None,
            required: &[
                "created", "refused: MetaDup", "refused: AuthFlowGiven", "refused: UnknownId", "pre-authorized grant", "no grant", "pin required",
                "pin not required", "pin not mentioned", "ids and inline credentials", "repeated credential", "no credentials",
            ],
            rule: "one case = an offer creation (issuer metadata, credentials, endpoint, grants); acceptance and every member of the offer compared with the inputs; non-trivial = distinct inputs",
        },
        Def {
            id: "C14",
            quick: 480_000,
            thorough: 1_920_000,
            case: case_c14,
            extra: None,
            required: &[
                "link", "no endpoint", "endpoint", "endpoint with query", "endpoint ending in ?", "endpoint ending in &", "url_encode", "non-ASCII offer",
                "offer with reserved characters", "control characters in the offer", "offer with authorization grant",
            ],
            rule: "one case = one created offer link (or one url_encode of an arbitrary offer): split into endpoint and query by the harness' own parser, percent-decoded, parsed and compared with the offer; non-trivial = distinct (endpoint form, offer)",
        },
        Def {
            id: "C15",
            quick: 640_000,
            thorough: 2_560_000,
            case: case_c15,
            extra: None,
            required: &[
                "created", "refused", "credential", "acceptance token", "neither", "c_nonce with lifetime", "c_nonce without lifetime", "no c_nonce",
                "format jwt_vc_json", "format jwt_vc_json-ld", "format ldp_vc", "format mso_mdoc", "credential of another format than requested", "request without proof",
            ],
            rule: "one case = creation of a credential success response (request, credential or acceptance token or neither, c_nonce); its wire form compared member by member with what was supplied; non-trivial = distinct inputs",
        },
        Def {
            id: "C16",
            quick: 960_000,
            thorough: 3_840_000,
            case: case_c16,
            extra: None,
            required: &["ldp_vc: object", "jwt_vc_json: string", "jwt_vc_json-ld: string", "mso_mdoc: string", "no credential", "stand-alone conversion"],
            rule: "one case = a credential (any format, arbitrary members) put in a success response: wire form, decoding by the harness' own base64url and JSON reading, and the round trip through the library's parser; non-trivial = distinct credential",
        },
    ]
}

// ------------------------------------------------------------------ C12

fn profile_is(p: &CredentialFormatProfile, want: &Value) -> bool {
    *p == build::profile(want) && serde_json::to_value(p).map_or(false, |v| same_json(&v, want))
}

/// (metadata as JSON, as a library value)
fn meta_value(ctx: &mut Ctx, r: &mut Rng, meta: &Value) -> Option<CredentialIssuerMetadata> {
    if r.one_in(3) {
        return Some(build::metadata(meta));
    }
    match read(meta) {
        Ok(m) => Some(m),
        Err(e) => {
            ctx.problem(format!("issuer metadata not readable: {e}"));
            None
        }
    }
}

/// A string that stands elsewhere in the metadata (a format, a type, a display name, a member name).
pub fn borrowed(r: &mut Rng, meta: &Value) -> String {
    fn collect<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
        match v {
            Value::String(s) => out.push(s),
            Value::Array(a) => a.iter().for_each(|v| collect(v, out)),
            Value::Object(o) => o.iter().for_each(|(k, v)| {
                out.push(k);
                collect(v, out);
            }),
            _ => {}
        }
    }
    let mut all = vec![];
    collect(if r.flip() { &meta["credentials_supported"] } else { meta }, &mut all);
    if all.is_empty() { String::new() } else { (*r.pick(&all)).to_owned() }
}

fn query(r: &mut Rng, ids: &[String], meta: &Value) -> (String, &'static str) {
    match r.below(9) {
        8 => (borrowed(r, meta), "borrowed"),
        0..=2 if !ids.is_empty() => (r.pick(ids).clone(), "exact"),
        3 | 4 if !ids.is_empty() => {
            let id = r.pick(ids).clone();
            (near(r, &id).0, "near")
        }
        5 => ((*r.pick(&["", "null", "None", "0", "undefined"])).to_owned(), "special"),
        _ => (text(r), "unknown"),
    }
}

fn case_c12(ctx: &mut Ctx, r: &mut Rng) {
    let meta = metadata(r);
    if oracle::duplicate_ids(&meta) {
        return;
    }
    let ids = ids_of(&meta);
    let entries = meta["credentials_supported"].as_array().map_or(0, Vec::len);
    if entries == 0 {
        ctx.class("metadata without credentials");
    }
    if ids.len() < entries {
        ctx.class("entries without id");
    }
    let Some(m) = meta_value(ctx, r, &meta) else { return };
    // single
    for _ in 0..3 {
        let (q, kind) = query(r, &ids, &meta);
        let want = lookup(&meta, &q);
        let w = json!({"issuer_metadata": meta, "id": q});
        if q.is_empty() {
            ctx.class("empty id");
        }
        if !ids.is_empty() && ids.last() == Some(&q) {
            ctx.class("id of the last entry");
        }
        let got = ctx.lib("resolve", || w.clone(), || CredentialOrId::CredentialId(q.clone()).resolve(&m).map_err(|e| api::view_ci(&e)));
        let Some(got) = got else { continue };
        judge_resolve(ctx, &got, want.as_ref(), &q, &w);
        match (&got, kind) {
            (Ok(_), _) => ctx.class("exact id: resolved"),
            (Err(_), "near") => ctx.class("near id: refused"),
            (Err(_), "borrowed") => ctx.class("id borrowed from the metadata: refused"),
            _ => ctx.class("unknown id: refused"),
        }
        ctx.decided(&(&ids, &q), true);
    }
    // inline: resolves to itself, whether or not the metadata knows it
    let inline = if !ids.is_empty() && r.flip() { lookup(&meta, r.pick(&ids)).unwrap() } else { profile(r) };
    let w = json!({"issuer_metadata": meta, "credential": inline});
    let got = ctx.lib("resolve", || w.clone(), || CredentialOrId::Credential(build::profile(&inline)).resolve(&m).map_err(|e| api::view_ci(&e)));
    if let Some(got) = got {
        ctx.check(matches!(&got, Ok(p) if profile_is(p, &inline)), || format!("inline credential resolves to {got:?}"), || w.clone());
        ctx.class("inline credential: itself");
    }
    // list
    let n = r.below(7);
    let unknown_ok = r.flip();
    let mut list: Vec<Value> = vec![];
    for _ in 0..n {
        let v = match r.below(5) {
            0 => profile(r),
            1 if !list.is_empty() => r.pick(&list).clone(),
            2 if unknown_ok => json!(query(r, &ids, &meta).0),
            _ if !ids.is_empty() => json!(r.pick(&ids)),
            _ => profile(r),
        };
        list.push(v);
    }
    let w = json!({"issuer_metadata": meta, "credentials": list});
    let Some(lib_list) = make_list(ctx, r, &list, &w) else { return };
    let got = ctx.lib("resolve_all", || w.clone(), || lib_list.resolve_all(&m).map_err(|e| api::view_ci(&e)));
    let Some(got) = got else { return };
    let mut want: Result<Vec<Value>, String> = Ok(vec![]);
    let mut unknown = 0;
    for c in &list {
        let x = match c {
            Value::String(id) => lookup(&meta, id).ok_or_else(|| id.clone()),
            _ => Ok(c.clone()),
        };
        match (x, &mut want) {
            (Ok(p), Ok(v)) => v.push(p),
            (Err(id), Ok(_)) => {
                unknown += 1;
                want = Err(id);
            }
            (Err(_), Err(_)) => unknown += 1,
            _ => {}
        }
    }
    let ok = match (&got, &want) {
        (Ok(g), Ok(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| profile_is(g, w)),
        (Err(e), Err(id)) => e.leaf().code == 103 && e.leaf().fields["id"] == json!(id),
        _ => false,
    };
    ctx.check(ok, || format!("list resolves to {got:?}, expected {want:?}"), || w.clone());
    ctx.class(if want.is_ok() { "list: resolved" } else { "list: refused" });
    if unknown > 1 {
        ctx.class("list: several unknown ids");
    }
    let set: BTreeSet<String> = list.iter().map(Value::to_string).collect();
    if set.len() < list.len() {
        ctx.class("list: repeated id");
    }
    ctx.decided(&(&ids, Value::Array(list.clone()).to_string()), !list.is_empty());
    ctx.sample(|| json!({"ids": ids, "credentials": list, "observed": format!("{got:?}")}));
}

fn judge_resolve(ctx: &mut Ctx, got: &Result<CredentialFormatProfile, api::ErrView>, want: Option<&Value>, q: &str, w: &Value) {
    let ok = match (got, want) {
        (Ok(p), Some(v)) => profile_is(p, v),
        (Err(e), None) => e.leaf().code == 103 && e.leaf().fields["id"] == json!(q),
        _ => false,
    };
    ctx.check(ok, || format!("id {q:?} resolves to {got:?}, expected {want:?}"), || w.clone());
}

/// The list through one of the constructors; all of them must agree.
fn make_list(ctx: &mut Ctx, r: &mut Rng, list: &[Value], w: &Value) -> Option<CredentialOrIds> {
    let all_ids: Option<Vec<String>> = list.iter().map(|v| v.as_str().map(str::to_owned)).collect();
    let items: Vec<CredentialOrId> = list.iter().map(build::credential_or_id).collect();
    let reference = CredentialOrIds::new(items.clone());
    let built = match (r.below(6), all_ids) {
        (0, Some(ids)) => ctx.lib("list from strings", || w.clone(), || CredentialOrIds::from(ids)),
        (1, Some(ids)) => {
            let ids: Vec<&str> = ids.iter().map(String::as_str).collect();
            ctx.lib("list from strings", || w.clone(), || CredentialOrIds::from(ids))
        }
        (2, _) => ctx.lib("list from a vector", || w.clone(), || CredentialOrIds::from(items)),
        (3, _) => {
            let refs: Vec<&CredentialOrId> = items.iter().collect();
            ctx.lib("list from a slice", || w.clone(), || CredentialOrIds::from(&refs[..]))
        }
        (4, _) => ctx.lib("list parsed", || w.clone(), || serde_json::from_str::<CredentialOrIds>(&Value::Array(list.to_vec()).to_string()).ok())?,
        _ => return Some(reference),
    }?;
    ctx.check(built == reference, || format!("credential list built as {built:?}"), || w.clone());
    Some(built)
}

// ------------------------------------------------------------------ offers

pub struct OfferCase {
    pub meta: Value,
    pub creds: Vec<Value>,
    pub endpoint: Option<String>,
    pub auth: Option<Value>,
    pub pre: Option<Value>,
}

impl OfferCase {
    pub fn json(&self) -> Value {
        json!({"issuer_metadata": self.meta, "credentials": self.creds, "endpoint": self.endpoint, "authorization_flow": self.auth, "pre_authorized_flow": self.pre})
    }
    pub fn violated(&self) -> (BTreeSet<Cond>, Option<String>) {
        let mut v = BTreeSet::new();
        if oracle::duplicate_ids(&self.meta) {
            v.insert(Cond::MetaDup);
        }
        if self.auth.is_some() {
            v.insert(Cond::AuthFlowGiven);
        }
        let ids = ids_of(&self.meta);
        let unknown = self.creds.iter().filter_map(Value::as_str).find(|c| !ids.iter().any(|i| i == c)).map(str::to_owned);
        if unknown.is_some() {
            v.insert(Cond::UnknownId);
        }
        (v, unknown)
    }
}

pub fn endpoint(r: &mut Rng) -> Option<String> {
    let base = url(r);
    match r.below(12) {
        0..=2 => None,
        3 => Some(format!("{base}?")),
        4 => Some(format!("{base}?{}={}", token(r, 3), token(r, 5))),
        5 => Some(format!("{base}?a=1&b=%20{}", token(r, 2))),
        6 => Some(format!("{base}?{}&", token(r, 3))),
        7 => Some("openid-credential-offer://".to_owned()),
        8 => Some((*r.pick(&["haip://", "walletapp://open", "", "/relative", "https://wallet.example.com?x", "?", "https://w.example/a?b?c=d"])).to_owned()),
        9 => Some(format!("{base}?next=https://{}.example/?y", token(r, 3))),
        _ => Some(base),
    }
}

pub fn gen_offer(r: &mut Rng, violate: bool) -> OfferCase {
    let mut meta = metadata(r);
    let mut creds = offered(r, &meta);
    if !creds.is_empty() && r.one_in(3) {
        let c = r.pick(&creds).clone();
        creds.push(c);
    }
    r.shuffle(&mut creds);
    let code = ident(r);
    let pre = if r.one_in(5) { None } else { Some(pre_flow(r, &code)) };
    let mut auth = None;
    if violate {
        for _ in 0..1 + r.below(2) {
            match r.below(4) {
                0 => auth = Some(auth_flow(r)),
                1 => {
                    if let Some(a) = meta["credentials_supported"].as_array_mut() {
                        let id = a.iter().find_map(|c| c["id"].as_str().map(str::to_owned)).unwrap_or_else(|| text(r));
                        let n = 1 + usize::from(!a.iter().any(|c| c["id"].as_str() == Some(&id)));
                        for _ in 0..n {
                            let e = supported(r, Some(id.clone()));
                            let at = r.below(a.len() + 1);
                            a.insert(at, e);
                        }
                    }
                }
                _ => {
                    let ids = ids_of(&meta);
                    let q = if !ids.is_empty() && r.flip() {
                        let id = r.pick(&ids).clone();
                        near(r, &id).0
                    } else if r.one_in(3) {
                        borrowed(r, &meta)
                    } else {
                        text(r)
                    };
                    let at = r.below(creds.len() + 1);
                    creds.insert(at, json!(q));
                    if r.one_in(3) {
                        let q = text(r);
                        creds.push(json!(q));
                    }
                }
            }
        }
    }
    OfferCase { meta, creds, endpoint: endpoint(r), auth, pre }
}

type Created = Result<(CredentialOffer, String), api::ErrView>;

pub fn create(ctx: &mut Ctx, r: &mut Rng, c: &OfferCase) -> Option<Created> {
    let meta = meta_value(ctx, r, &c.meta)?;
    let w = c.json();
    let auth = c.auth.as_ref().and_then(build::auth_flow);
    let pre = c.pre.as_ref().and_then(build::pre_flow);
    let before = serde_json::to_value(&meta).ok();
    // the credentials in every form that can be given
    let items: Vec<CredentialOrId> = c.creds.iter().map(build::credential_or_id).collect();
    let ids: Option<Vec<&str>> = c.creds.iter().map(Value::as_str).collect();
    let inline: Option<Vec<CredentialFormatProfile>> = c.creds.iter().map(|v| if v.is_object() { Some(build::profile(v)) } else { None }).collect();
    let form = r.below(5);
    let res = ctx.lib("create_offer", || w.clone(), || {
        match (form, ids, inline) {
            (0, Some(ids), _) => CredentialIssuer::create_offer(&meta, ids, &c.endpoint, &auth, &pre),
            (1, Some(ids), _) => {
                let ids: Vec<String> = ids.into_iter().map(str::to_owned).collect();
                CredentialIssuer::create_offer(&meta, ids, &c.endpoint, &auth, &pre)
            }
            (0 | 1, _, Some(p)) => CredentialIssuer::create_offer(&meta, p, &c.endpoint, &auth, &pre),
            (0 | 2, _, _) => CredentialIssuer::create_offer(&meta, items, &c.endpoint, &auth, &pre),
            (3, _, _) => {
                let refs: Vec<&CredentialOrId> = items.iter().collect();
                CredentialIssuer::create_offer(&meta, &refs[..], &c.endpoint, &auth, &pre)
            }
            _ => CredentialIssuer::create_offer(&meta, CredentialOrIds::new(items), &c.endpoint, &auth, &pre),
        }
        .map_err(|e| api::view_ci(&e))
    })?;
    ctx.check(before == serde_json::to_value(&meta).ok(), || "the issuer metadata was changed".into(), || w.clone());
    Some(res)
}

/// C19 for offer creation.
pub fn case_offer(ctx: &mut Ctx, r: &mut Rng) {
    let c = gen_offer(r, true);
    let (v, unknown) = c.violated();
    if let Some(Err(e)) = create(ctx, r, &c) {
        judge_offer_error(ctx, &c, &v, unknown.as_deref(), &e);
        match v.len() {
            0 => {}
            1 => ctx.class("exactly one condition"),
            _ => ctx.class("several conditions"),
        }
        ctx.decided(&(e.leaf().code, e.leaf().fields.to_string(), format!("{v:?}")), true);
    }
}

fn judge_offer_error(ctx: &mut Ctx, c: &OfferCase, v: &BTreeSet<Cond>, unknown: Option<&str>, e: &api::ErrView) {
    let l = e.leaf();
    ctx.class(&format!("error {}", l.code));
    let ok = match l.code {
        1 => v.contains(&Cond::MetaDup),
        102 => v.contains(&Cond::AuthFlowGiven),
        103 => v.contains(&Cond::UnknownId) && l.fields["id"].as_str() == unknown,
        _ => false,
    };
    ctx.check(ok, || format!("offer creation rejected with {} {}, violated: {v:?}", l.name, l.fields), || c.json());
}

fn case_c13(ctx: &mut Ctx, r: &mut Rng) {
    let violate = r.one_in(3);
    let c = gen_offer(r, violate);
    let (v, unknown) = c.violated();
    let Some(res) = create(ctx, r, &c) else { return };
    ctx.decided(&c.json().to_string(), true);
    match &res {
        Ok((offer, _)) => {
            ctx.class("created");
            ctx.check(v.is_empty(), || format!("offer created although {v:?}"), || c.json());
            let mut g = serde_json::Map::new();
            if let Some(p) = &c.pre {
                g.insert(PRE.into(), p.clone());
            }
            let want = json!({"credential_issuer": c.meta["credential_issuer"], "credentials": c.creds, "grants": g});
            ctx.check(*offer == build::offer(&want), || format!("offer is {offer:?}"), || c.json());
            let wire = serde_json::to_value(offer).unwrap_or(Value::Null);
            ctx.check(same_json(&wire, &want), || format!("offer is {wire}"), || c.json());
            match &c.pre {
                None => ctx.class("no grant"),
                Some(p) => {
                    ctx.class("pre-authorized grant");
                    ctx.class(match p["user_pin_required"].as_bool() {
                        Some(true) => "pin required",
                        Some(false) => "pin not required",
                        None => "pin not mentioned",
                    });
                }
            }
            if c.creds.iter().any(Value::is_string) && c.creds.iter().any(Value::is_object) {
                ctx.class("ids and inline credentials");
            }
            let set: BTreeSet<String> = c.creds.iter().map(Value::to_string).collect();
            if set.len() < c.creds.len() {
                ctx.class("repeated credential");
            }
            if c.creds.is_empty() {
                ctx.class("no credentials");
            }
        }
        Err(e) => {
            ctx.check(!v.is_empty(), || format!("offer refused: {}", e.json()), || c.json());
            for x in &v {
                ctx.class(&format!("refused: {x:?}"));
            }
            judge_offer_error(ctx, &c, &v, unknown.as_deref(), e);
        }
    }
    ctx.sample(|| json!({"input": c.json(), "created": res.is_ok()}));
}

// ------------------------------------------------------------------ C14

pub fn percent_decode(s: &str) -> Result<String, &'static str> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = s.get(i + 1..i + 3).ok_or("incomplete percent escape")?;
                if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                    return Err("malformed percent escape");
                }
                out.push(u8::from_str_radix(h, 16).map_err(|_| "malformed percent escape")?);
                i += 3;
            }
            c if c.is_ascii_alphanumeric() || b"-._~!*'()".contains(&c) => {
                out.push(c);
                i += 1;
            }
            _ => return Err("a character that is not URL-safe"),
        }
    }
    String::from_utf8(out).map_err(|_| "not UTF-8")
}

pub const K_DEEPLINK: &str = "without an endpoint the link is openid-credential-offer://credential_offer=..., without the question mark that makes it a query parameter";

fn judge_value(ctx: &mut Ctx, encoded: &str, offer: &CredentialOffer, want: &Value, w: &Value) {
    let text = match percent_decode(encoded) {
        Ok(t) => t,
        Err(e) => {
            ctx.violation(format!("the credential_offer parameter contains {e}"), w.clone());
            return;
        }
    };
    let v: Result<Value, _> = serde_json::from_str(&text);
    let Ok(v) = v else {
        ctx.violation(format!("the credential_offer parameter decodes to {text:?}, not to JSON"), w.clone());
        return;
    };
    ctx.check(same_json(&v, want), || format!("the credential_offer parameter decodes to {v}"), || w.clone());
    let back = ctx.lib("parse offer", || w.clone(), || serde_json::from_str::<CredentialOffer>(&text));
    if let Some(b) = back {
        ctx.check(b.as_ref().map_or(false, |b| b == offer), || format!("the credential_offer parameter parses to {b:?}"), || w.clone());
    }
    if text.chars().any(|c| !c.is_ascii()) {
        ctx.class("non-ASCII offer");
    }
    if text.contains('&') || text.contains('#') || text.contains('%') || text.contains('+') {
        ctx.class("offer with reserved characters");
    }
    if text.contains("\\u00") {
        ctx.class("control characters in the offer");
    }
}

fn case_c14(ctx: &mut Ctx, r: &mut Rng) {
    if r.one_in(3) {
        // url_encode of any offer
        let code = ident(r);
        let auth = if r.flip() { Some(auth_flow(r)) } else { None };
        let pre = if r.flip() { Some(pre_flow(r, &code)) } else { None };
        let meta = metadata(r);
        let mut creds = offered(r, &meta);
        creds.push(json!(text(r)));
        let iss = ident(r);
        let want = offer(&iss, creds, auth.clone(), pre);
        let o = build::offer(&want);
        let w = json!({ "offer": want });
        let Some(res) = ctx.lib("url_encode", || w.clone(), || o.url_encode().map_err(|e| api::view_ci(&e))) else { return };
        match res {
            Ok(s) => {
                ctx.class("url_encode");
                if auth.is_some() {
                    ctx.class("offer with authorization grant");
                }
                judge_value(ctx, &s, &o, &want, &w);
            }
            Err(e) => ctx.violation(format!("the offer cannot be url-encoded: {}", e.json()), w),
        }
        ctx.decided(&want.to_string(), true);
        return;
    }
    let mut c = gen_offer(r, false);
    if !c.violated().0.is_empty() {
        return;
    }
    if r.one_in(4) {
        // an endpoint of any text
        let t = text(r);
        c.endpoint = Some(t);
    }
    if c.endpoint.as_ref().map_or(false, |e| e.contains('#') || e.contains("credential_offer=")) {
        return;
    }
    let Some(Ok((offer, link))) = create(ctx, r, &c) else { return };
    ctx.class("link");
    let w = json!({"input": c.json(), "link": link});
    let want = {
        let mut g = serde_json::Map::new();
        if let Some(p) = &c.pre {
            g.insert(PRE.into(), p.clone());
        }
        json!({"credential_issuer": c.meta["credential_issuer"], "credentials": c.creds, "grants": g})
    };
    ctx.decided(&(&c.endpoint, want.to_string()), true);
    ctx.sample(|| w.clone());
    let prefix = c.endpoint.clone().unwrap_or_else(|| "openid-credential-offer://".to_owned());
    let Some(rest) = link.strip_prefix(prefix.as_str()) else {
        ctx.violation(format!("the link does not start with {prefix:?}"), w);
        return;
    };
    let own: Vec<&str> = prefix.split_once('?').map_or("", |x| x.1).split('&').filter(|p| !p.is_empty()).collect();
    match &c.endpoint {
        None => {
            ctx.class("no endpoint");
            if let Some(v) = rest.strip_prefix("credential_offer=") {
                ctx.known(K_DEEPLINK, || link.chars().take(120).collect());
                judge_value(ctx, v, &offer, &want, &w);
                return;
            }
        }
        Some(e) => ctx.class(match e {
            e if e.ends_with('?') => "endpoint ending in ?",
            e if e.ends_with('&') => "endpoint ending in &",
            e if e.contains('?') => "endpoint with query",
            _ => "endpoint",
        }),
    }
    if let Some(c) = rest.chars().find(|c| !(c.is_ascii_alphanumeric() || "-._~!*'()%=&?".contains(*c))) {
        ctx.violation(format!("the added part of the link contains {c:?}"), w.clone());
    }
    let Some((_, query)) = link.split_once('?') else {
        ctx.violation("the link has no query", w);
        return;
    };
    let pieces: Vec<&str> = query.split('&').filter(|p| !p.is_empty()).collect();
    let (mine, others): (Vec<&str>, Vec<&str>) = pieces.iter().partition(|p| p.starts_with("credential_offer="));
    if mine.len() != 1 || others != own {
        ctx.violation(format!("the query of the link has {} credential_offer parameters and the others are {others:?}, not {own:?}", mine.len()), w);
        return;
    }
    judge_value(ctx, &mine[0]["credential_offer=".len()..], &offer, &want, &w);
}

// ------------------------------------------------------------------ C15, C16

/// (response as serialized, response)
type Response = Result<(Value, CredentialSuccessResponse), api::ErrView>;

pub enum Supplied {
    Credential(Value),
    Token(String),
    Nothing,
}

impl Supplied {
    fn json(&self) -> Value {
        match self {
            Supplied::Credential(c) => json!({ "credential": c }),
            Supplied::Token(t) => json!({ "acceptance_token": t }),
            Supplied::Nothing => Value::Null,
        }
    }
}

fn respond(ctx: &mut Ctx, req: &CredentialRequest, s: &Supplied, nonce: Option<&(String, Option<u32>)>, w: &Value) -> Option<Response> {
    let x = match s {
        Supplied::Credential(c) => Some(CredentialOrAcceptanceToken::Credential(build::profile(c))),
        Supplied::Token(t) => Some(CredentialOrAcceptanceToken::AcceptanceToken(t.clone())),
        Supplied::Nothing => None,
    };
    let n = nonce.map(|(c, e)| CNonce { c_nonce: c.clone(), c_nonce_expires_in: *e });
    clock::set(1_700_000_000, 0);
    let res = ctx.lib("create_credential_success_response", || w.clone(), || {
        CredentialIssuer::create_credential_success_response(req, x, n).map(|(r, _)| r).map_err(|e| api::view_ci(&e))
    })?;
    match res {
        Err(e) => Some(Err(e)),
        Ok(resp) => {
            let text = ctx.lib("serialize response", || w.clone(), || serde_json::to_string(&resp))?;
            match text.ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(v) => Some(Ok((v, resp))),
                None => {
                    ctx.violation("the credential success response cannot be serialized to JSON", w.clone());
                    None
                }
            }
        }
    }
}

/// the credential in a response, whatever its encoding
pub fn decode(v: &Value) -> Option<Value> {
    match v {
        Value::Object(_) => Some(v.clone()),
        Value::String(s) => serde_json::from_slice(&URL_SAFE_NO_PAD.decode(s).ok()?).ok(),
        _ => None,
    }
}

fn gen_supplied(r: &mut Rng) -> Supplied {
    match r.below(4) {
        0 => Supplied::Token(ident(r)),
        1 => Supplied::Nothing,
        _ => Supplied::Credential(profile(r)),
    }
}

fn case_c15(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = honest(r);
    let broken = r.one_in(4);
    if broken {
        crate::forms::break_form(r, &mut s);
    } else if r.one_in(4) {
        s.proof = None;
    }
    let request = s.request();
    let req: CredentialRequest = match read(&request) {
        Ok(q) => q,
        Err(e) => {
            if broken {
                ctx.class("unreadable request");
            } else {
                ctx.violation(format!("the credential request is not read: {e}"), request);
            }
            return;
        }
    };
    // what makes the request itself invalid
    let bad_form = request.get("proof").map_or(false, |p| {
        !oracle::proof_type_ok(&request) || !p["jwt"].as_str().map_or(true, |j| oracle::proof(j).form.is_empty())
    });
    let open = request["proof"]["jwt"].as_str().map_or(false, |j| !oracle::proof(j).unspecified.is_empty());
    let supplied = gen_supplied(r);
    let nonce = match r.below(3) {
        0 => None,
        _ => Some((ident(r), if r.one_in(3) { None } else { Some(lifetime(r)) })),
    };
    let w = json!({"credential_request": request, "supplied": supplied.json(), "c_nonce": nonce.as_ref().map(|n| json!({"c_nonce": n.0, "expires_in": n.1}))});
    let Some(res) = respond(ctx, &req, &supplied, nonce.as_ref(), &w) else { return };
    ctx.decided(&w.to_string(), true);
    let (wire, _) = match res {
        Err(e) => {
            ctx.class("refused");
            if !open {
                ctx.check(bad_form, || format!("the response is refused: {}", e.json()), || w.clone());
            }
            return;
        }
        Ok(x) => x,
    };
    ctx.class("created");
    if !open {
        ctx.check(!bad_form, || "a response is created for an invalid request".into(), || w.clone());
    }
    if request.get("proof").is_none() {
        ctx.class("request without proof");
    }
    let Some(o) = wire.as_object() else {
        ctx.violation(format!("the response is {wire}"), w);
        return;
    };
    const MEMBERS: &[&str] = &["format", "credential", "acceptance_token", "c_nonce", "c_nonce_expires_in"];
    if let Some(k) = o.keys().find(|k| !MEMBERS.contains(&k.as_str())) {
        ctx.violation(format!("the response has a member {k:?}"), w.clone());
    }
    ctx.check(o.get("format") == Some(&request["format"]), || format!("the response names format {:?}", o.get("format")), || w.clone());
    ctx.class(&format!("format {}", request["format"].as_str().unwrap_or("?")));
    let get = |k: &str| o.get(k).cloned().unwrap_or(Value::Null);
    let want_token = match &supplied {
        Supplied::Token(t) => json!(t),
        _ => Value::Null,
    };
    ctx.check(get("acceptance_token") == want_token, || format!("the response has acceptance token {}", get("acceptance_token")), || w.clone());
    match &supplied {
        Supplied::Credential(c) => {
            let d = decode(&get("credential"));
            ctx.check(d.as_ref().map_or(false, |d| same_json(d, c)), || format!("the response has credential {d:?}"), || w.clone());
            ctx.class("credential");
            if c["format"] != request["format"] {
                ctx.class("credential of another format than requested");
            }
        }
        Supplied::Token(_) => {
            ctx.class("acceptance token");
            ctx.check(get("credential").is_null(), || "the response has a credential as well".into(), || w.clone());
        }
        Supplied::Nothing => {
            ctx.class("neither");
            ctx.check(get("credential").is_null(), || "the response has a credential that nobody supplied".into(), || w.clone());
        }
    }
    let (wn, we) = match &nonce {
        None => (Value::Null, Value::Null),
        Some((n, e)) => (json!(n), json!(e)),
    };
    ctx.check(
        get("c_nonce") == wn && get("c_nonce_expires_in") == we,
        || format!("the response has c_nonce {} and lifetime {}", get("c_nonce"), get("c_nonce_expires_in")),
        || w.clone(),
    );
    ctx.class(match &nonce {
        None => "no c_nonce",
        Some((_, None)) => "c_nonce without lifetime",
        Some(_) => "c_nonce with lifetime",
    });
    ctx.sample(|| json!({"input": w, "wire": wire}));
}

fn case_c16(ctx: &mut Ctx, r: &mut Rng) {
    let supplied = match r.below(8) {
        0 => gen_supplied(r),
        _ => Supplied::Credential(profile(r)),
    };
    let request = match &supplied {
        Supplied::Credential(c) if !r.one_in(3) => c.clone(),
        _ => profile(r),
    };
    let req = build::request(&request);
    let nonce = if r.flip() { Some((ident(r), Some(lifetime(r)))) } else { None };
    let w = json!({"credential_request": request, "supplied": supplied.json()});
    let Some(res) = respond(ctx, &req, &supplied, nonce.as_ref(), &w) else { return };
    let (wire, resp) = match res {
        Ok(x) => x,
        Err(e) => {
            ctx.violation(format!("no success response for a valid request: {}", e.json()), w);
            return;
        }
    };
    ctx.decided(&(w.to_string(), &nonce), true);
    if let Supplied::Credential(c) = &supplied {
        judge_encoding(ctx, c, &wire["credential"], &w);
        // the conversion by itself
        let p = build::profile(c);
        let e = ctx.lib("encode credential", || w.clone(), || CredentialFormatProfileOrEncoded::try_from(p.clone()));
        match e {
            Some(Ok(e)) => {
                ctx.class("stand-alone conversion");
                let v = serde_json::to_value(&e).unwrap_or(Value::Null);
                judge_encoding(ctx, c, &v, &w);
                let back = ctx.lib("parse credential", || w.clone(), || serde_json::from_str::<CredentialFormatProfileOrEncoded>(&v.to_string()));
                if let Some(b) = back {
                    ctx.check(b.as_ref().map_or(false, |b| *b == e), || format!("the encoded credential parses to {b:?}"), || w.clone());
                }
                match &e {
                    CredentialFormatProfileOrEncoded::CredentialFormatProfile(q) => {
                        ctx.check(*q == p, || format!("the credential became {q:?}"), || w.clone());
                    }
                    CredentialFormatProfileOrEncoded::Encoded(s) => {
                        let q = URL_SAFE_NO_PAD.decode(s).ok().and_then(|b| serde_json::from_slice::<CredentialFormatProfile>(&b).ok());
                        ctx.check(q.as_ref() == Some(&p), || format!("the encoded credential reads back as {q:?}"), || w.clone());
                    }
                }
            }
            Some(Err(e)) => ctx.violation(format!("the credential cannot be encoded: {e}"), w.clone()),
            None => {}
        }
    } else {
        ctx.class("no credential");
    }
    // the whole response
    let back = ctx.lib("parse response", || w.clone(), || serde_json::from_str::<CredentialSuccessResponse>(&wire.to_string()));
    if let Some(b) = back {
        ctx.check(b.as_ref().map_or(false, |b| *b == resp), || format!("the serialized response {wire} parses to {b:?}"), || w.clone());
    }
    let back = ctx.lib("parse response", || w.clone(), || serde_json::from_str::<CredentialSuccessResponse>(&oracle::norm(&wire).to_string()));
    if let Some(b) = back {
        ctx.check(b.as_ref().map_or(false, |b| *b == resp), || format!("the response without null members {wire} parses to {b:?}"), || w.clone());
    }
    ctx.sample(|| json!({"input": w, "wire": wire}));
}

fn judge_encoding(ctx: &mut Ctx, c: &Value, v: &Value, w: &Value) {
    let format = c["format"].as_str().unwrap_or("?");
    let object = format == "ldp_vc";
    ctx.class(&format!("{format}: {}", if v.is_object() { "object" } else { "string" }));
    let form_ok = if object { v.is_object() } else { v.is_string() };
    ctx.check(form_ok, || format!("a credential of format {format} is encoded as {v}"), || w.clone());
    let d = decode(v);
    ctx.check(d.as_ref().map_or(false, |d| same_json(d, c)), || format!("the encoded credential decodes to {d:?}"), || w.clone());
}
