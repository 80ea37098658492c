//! Reference models. They look only at the data handed to the library, never at the library.
use crate::gen::{dt, nanos, ALGS_BAD, ALGS_OK, PRE, S, SECTIONS};
use base64::{engine::general_purpose::{GeneralPurpose, URL_SAFE_NO_PAD}, Engine as _};
use base64::{alphabet, engine::{DecodePaddingMode, GeneralPurposeConfig}};
use chrono::{DateTime, SecondsFormat};
use serde_json::{Map, Value};
use std::collections::{BTreeSet, HashSet};

/// Conditions that make a request unacceptable.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cond {
    // credential requests
    MetaDup,
    NoOffer,
    AsMeta,
    NonceExpired,
    NoProof,
    Form,
    NotYet,
    Expired,
    Nonce,
    Iss,
    Aud,
    KidNotDid,
    KeyKind,
    NoKey,
    NoDoc,
    MethodAbsent,
    KeyUnusable,
    // token requests
    PinTooLong,
    AuthGrant,
    NoTokenOffer,
    NoPreFlow,
    Code,
    PinMissing,
    PinUnexpected,
    PinNotExpectedByIssuer,
    PinWrong,
    // offers
    AuthFlowGiven,
    UnknownId,
}

// ------------------------------------------------------------------ JSON comparison

/// Absent and null are the same on the wire, except inside JSON-LD contexts.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .filter(|(_, x)| !x.is_null())
                .map(|(k, x)| (k.clone(), if k == "@context" { x.clone() } else { norm(x) }))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        _ => v.clone(),
    }
}

pub fn same_json(a: &Value, b: &Value) -> bool {
    norm(a) == norm(b)
}

// ------------------------------------------------------------------ time

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Instant {
    pub ns: i128,
    /// uncertainty (binary fractions)
    pub eps: i128,
}

/// RFC 3339 string or NumericDate.
pub fn instant(v: &Value) -> Option<Instant> {
    match v {
        Value::String(s) => DateTime::parse_from_rfc3339(s)
            .ok()
            .map(|d| Instant { ns: nanos(&d.with_timezone(&chrono::Utc)), eps: 0 }),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                dt(i128::from(i) * S)?;
                Some(Instant { ns: i128::from(i) * S, eps: 0 })
            } else {
                let f = n.as_f64()?;
                if f.abs() > 1e14 {
                    return None;
                }
                let ns = (f.floor() as i128) * S + ((f - f.floor()) * 1e9) as i128;
                dt(ns)?;
                Some(Instant { ns, eps: 2_000 })
            }
        }
        _ => None,
    }
}

pub fn rfc(ns: i128) -> String {
    dt(ns).expect("representable").to_rfc3339_opts(SecondsFormat::AutoSi, true)
}

// ------------------------------------------------------------------ proofs

#[derive(Clone, Debug, Default)]
pub struct ProofView {
    /// why the proof is not well formed (empty: well formed)
    pub form: Vec<&'static str>,
    pub unspecified: Vec<&'static str>,
    pub header: Option<Map<String, Value>>,
    pub body: Option<Map<String, Value>>,
    /// text of the third part
    pub signature: Option<String>,
    pub signing_input: Option<String>,
    pub alg: Option<String>,
    pub kid: Option<String>,
    pub key_kinds: Vec<&'static str>,
    pub iat: Option<Instant>,
    pub nbf: Option<Instant>,
    pub exp: Option<Instant>,
}

/// strict: canonical unpadded base64url; lax: non-zero trailing bits allowed
fn lax() -> GeneralPurpose {
    GeneralPurpose::new(
        &alphabet::URL_SAFE,
        GeneralPurposeConfig::new()
            .with_decode_allow_trailing_bits(true)
            .with_decode_padding_mode(DecodePaddingMode::RequireNone),
    )
}

fn part(view: &mut ProofView, p: &str) -> Option<Map<String, Value>> {
    let bytes = match URL_SAFE_NO_PAD.decode(p) {
        Ok(b) => b,
        Err(_) => {
            if lax().decode(p).is_ok() {
                view.unspecified.push("non-canonical base64url");
            }
            view.form.push("not unpadded base64url");
            return None;
        }
    };
    match serde_json::from_slice::<Value>(&bytes) {
        Ok(Value::Object(o)) => Some(o),
        Ok(_) => {
            view.form.push("not a JSON object");
            None
        }
        Err(_) => {
            view.form.push("not JSON");
            None
        }
    }
}

pub fn proof(jwt: &str) -> ProofView {
    let mut v = ProofView::default();
    let parts: Vec<&str> = jwt.split('.').collect();
    if parts.len() < 2 {
        v.form.push("fewer than two parts");
        return v;
    }
    if parts.len() > 3 {
        v.form.push("more than three parts");
    }
    v.signing_input = Some(format!("{}.{}", parts[0], parts[1]));
    v.signature = parts.get(2).map(|s| (*s).to_owned());
    v.header = part(&mut v, parts[0]);
    v.body = part(&mut v, parts[1]);
    if let Some(h) = v.header.clone() {
        match h.get("typ") {
            Some(Value::String(t)) => {
                if !t.eq_ignore_ascii_case("openid4vci-proof+jwt") {
                    v.form.push("typ");
                    // case mappings outside ASCII
                    if t.to_lowercase() == "openid4vci-proof+jwt" {
                        v.unspecified.push("non-ASCII case of typ");
                    }
                }
            }
            _ => v.form.push("typ missing"),
        }
        match h.get("alg") {
            Some(Value::String(a)) if ALGS_OK.contains(&a.as_str()) => v.alg = Some(a.clone()),
            Some(Value::String(a)) if ALGS_BAD.contains(&a.as_str()) => {
                v.alg = Some(a.clone());
                v.form.push("alg forbidden");
            }
            _ => v.form.push("alg unknown or missing"),
        }
        for k in ["kid", "jwk", "x5c"] {
            match h.get(k) {
                None => {}
                Some(Value::Null) => v.unspecified.push("null key member"),
                Some(x) => {
                    v.key_kinds.push(k);
                    let ok = match k {
                        "kid" => x.is_string(),
                        "jwk" => x.is_object() || x.is_string(),
                        _ => x.is_array() || x.is_string(),
                    };
                    if !ok {
                        v.form.push("key member of the wrong type");
                    }
                    if k == "kid" {
                        v.kid = x.as_str().map(str::to_owned);
                    }
                }
            }
        }
        if v.key_kinds.len() > 1 {
            v.form.push("more than one of kid, jwk and x5c");
        }
    }
    if let Some(b) = v.body.clone() {
        for k in ["aud", "nonce"] {
            if !matches!(b.get(k), Some(Value::String(_))) {
                v.form.push("aud or nonce missing or not a string");
            }
        }
        for k in ["iss", "sub"] {
            if !matches!(b.get(k), None | Some(Value::Null | Value::String(_))) {
                v.form.push("iss or sub not a string");
            }
        }
        for k in ["iat", "nbf", "exp"] {
            let i = match b.get(k) {
                None if k != "iat" => continue,
                Some(Value::Null) if k != "iat" => continue,
                None => None,
                Some(x) => instant(x),
            };
            if i.is_none() {
                v.form.push("iat, nbf or exp missing or not an instant");
                // forms a lenient reader may take
                if let Some(Value::String(s)) = b.get(k) {
                    if s.parse::<DateTime<chrono::Utc>>().is_ok() {
                        v.unspecified.push("instant in a form outside RFC 3339");
                    }
                }
            }
            match k {
                "iat" => v.iat = i,
                "nbf" => v.nbf = i,
                _ => v.exp = i,
            }
        }
    }
    v
}

pub fn did_of(kid: &str) -> String {
    kid.split(['/', '?', '#']).next().unwrap_or("").to_owned()
}

/// `Some(true)`: plausible DID URL, `Some(false)`: certainly not one, `None`: unspecified.
pub fn is_did_url(kid: &str) -> Option<bool> {
    if !kid.starts_with("did:") {
        return Some(false);
    }
    let did = did_of(kid);
    let mut it = did.splitn(3, ':');
    it.next();
    let method = it.next().unwrap_or("");
    let id = it.next().unwrap_or("");
    let ok_method = !method.is_empty() && method.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit());
    let ok_id = !id.is_empty() && !id.ends_with(':') && id.bytes().all(|b| b.is_ascii_alphanumeric() || b".-_:%".contains(&b));
    if ok_method && ok_id && kid.is_ascii() && !kid.bytes().any(|b| b <= b' ' || b == 0x7f) && kid.matches('#').count() <= 1 {
        Some(true)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Absent,
    Unusable,
    Bytes(Vec<u8>),
    /// not usable with Ed25519: to be refused, or returned as it is
    Odd(Vec<u8>),
    Unspecified,
}

fn base58_decode(s: &str) -> Option<Vec<u8>> {
    const A: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for c in s.chars() {
        let mut carry = A.find(c)? as u32;
        for b in &mut out {
            carry += u32::from(*b) * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    out.extend(s.chars().take_while(|c| *c == '1').map(|_| 0));
    out.reverse();
    Some(out)
}

fn hex_decode(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 == 1 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn key_of(method: &Value) -> Key {
    let present: Vec<&str> = ["publicKeyJwk", "publicKeyBase58", "publicKeyHex", "publicKeyMultibase"]
        .into_iter()
        .filter(|k| method.get(*k).map_or(false, |v| !v.is_null()))
        .collect();
    if present.len() != 1 {
        return Key::Unusable;
    }
    let v = &method[present[0]];
    let ty = method["type"].as_str().unwrap_or("");
    if present[0] == "publicKeyJwk" {
        return key_of_jwk(v);
    }
    let Some(text) = v.as_str() else { return Key::Unusable };
    let bytes = match present[0] {
        "publicKeyBase58" => base58_decode(text),
        "publicKeyHex" => hex_decode(text.strip_prefix("0x").unwrap_or(text)),
        _ => match text.strip_prefix('z') {
            Some(t) => base58_decode(t),
            None => return Key::Unspecified,
        },
    };
    let Some(bytes) = bytes else { return Key::Unusable };
    match ty {
        "Ed25519VerificationKey2018" => {
            if bytes.len() == 32 {
                Key::Bytes(bytes)
            } else {
                Key::Odd(bytes)
            }
        }
        "Ed25519VerificationKey2020" => {
            if bytes.len() == 34 && bytes[..2] == [0xed, 0x01] {
                Key::Bytes(bytes[2..].to_vec())
            } else {
                Key::Unusable
            }
        }
        _ => Key::Unusable,
    }
}

pub fn key_of_jwk(v: &Value) -> Key {
    let alg = v.get("alg").and_then(Value::as_str);
    let crv = v["crv"].as_str().unwrap_or("");
    let x = v["x"].as_str().and_then(|x| URL_SAFE_NO_PAD.decode(x).ok());
    match v["kty"].as_str() {
        Some("OKP") if crv == "Ed25519" => match (x, alg) {
            (Some(x), None | Some("EdDSA")) if x.len() == 32 => Key::Bytes(x),
            (Some(x), None | Some("EdDSA")) => Key::Odd(x),
            _ => Key::Unspecified,
        },
        Some("OKP") => Key::Unusable,
        Some("EC") if alg == Some("EdDSA") => match x {
            Some(x) if crv.eq_ignore_ascii_case("ed25519") => Key::Bytes(x),
            None if v.get("x").is_none() => Key::Unusable,
            _ => Key::Unspecified,
        },
        Some("EC" | "RSA" | "oct") => Key::Unusable,
        _ => Key::Unspecified,
    }
}

/// The key of the method that `kid` identifies in `doc`.
pub fn resolve_key(doc: &Value, kid: &str) -> Key {
    let did = did_of(kid);
    let rest = &kid[did.len()..];
    let here = doc["id"].as_str() == Some(did.as_str());
    let mut found: Vec<Key> = vec![];
    for s in SECTIONS {
        for m in doc.get(*s).and_then(Value::as_array).into_iter().flatten() {
            if let Some(id) = m.get("id").and_then(Value::as_str) {
                if id == kid || (here && !rest.is_empty() && id == rest) {
                    if id == rest && rest.starts_with("//") {
                        return Key::Unspecified;
                    }
                    found.push(key_of(m));
                }
            }
        }
    }
    if !here {
        // in the document of another DID: nothing has to be approved, but no other key may be
        for k in &mut found {
            if let Key::Bytes(b) = k {
                *k = Key::Odd(std::mem::take(b));
            }
        }
    }
    match found.len() {
        0 => Key::Absent,
        1 => found.remove(0),
        _ => {
            if found.iter().all(|k| *k == found[0]) {
                found.remove(0)
            } else {
                Key::Unspecified
            }
        }
    }
}

// ------------------------------------------------------------------ metadata

pub fn duplicate_ids(meta: &Value) -> bool {
    let mut seen = HashSet::new();
    meta["credentials_supported"]
        .as_array()
        .into_iter()
        .flatten()
        .filter_map(|c| c["id"].as_str())
        .any(|id| !seen.insert(id.to_owned()))
}

/// format profile part of a `credentials_supported` entry
pub fn profile_part(entry: &Value) -> Value {
    let f = entry["format"].as_str().unwrap_or("");
    let keys: &[&str] = match f {
        "mso_mdoc" => &["format", "doctype", "claims", "order"],
        "ldp_vc" => &["format", "@context", "types", "credentialSubject", "order"],
        _ => &["format", "types", "credentialSubject", "order"],
    };
    Value::Object(
        entry
            .as_object()
            .into_iter()
            .flatten()
            .filter(|(k, _)| keys.contains(&k.as_str()))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect(),
    )
}

pub fn lookup(meta: &Value, id: &str) -> Option<Value> {
    meta["credentials_supported"].as_array()?.iter().find(|c| c["id"].as_str() == Some(id)).map(profile_part)
}

// ------------------------------------------------------------------ credential request

#[derive(Clone, Debug, Default)]
pub struct Analysis {
    pub violated: BTreeSet<Cond>,
    pub unspecified: Vec<&'static str>,
    pub proof: Option<ProofView>,
    pub unsigned: bool,
    pub key: Option<Vec<u8>>,
    pub did: Option<String>,
    pub expected_nonce: Option<String>,
    pub client_id: Option<String>,
    pub nonce_expiry: Option<i128>,
    /// distances from the deadlines, for coverage
    pub nonce_slack: Option<i128>,
}

impl Analysis {
    /// Are all open questions of the kinds named (by how they begin)?
    pub fn clear_but(&self, kinds: &[&str]) -> bool {
        self.unspecified.iter().all(|u| kinds.iter().any(|k| u.starts_with(k)))
    }
    /// Does the proof leave no doubt about its text (whatever its key, instants and issuer mean)?
    pub fn readable(&self) -> bool {
        self.clear_but(&["key of", "nbf at", "exp at", "issuer claim"])
    }
    /// Can this condition be decided, whatever else is open?
    pub fn decides(&self, c: Cond) -> bool {
        self.unspecified.iter().all(|u| match *u {
            u if u.starts_with("key of") => !matches!(c, Cond::MethodAbsent | Cond::KeyUnusable),
            u if u.starts_with("nbf at") || u.starts_with("exp at") => !matches!(c, Cond::NotYet | Cond::Expired),
            u if u.starts_with("issuer claim") => c != Cond::Iss,
            "null key member" | "kid of doubtful DID syntax" => {
                !matches!(c, Cond::NoKey | Cond::NoDoc | Cond::MethodAbsent | Cond::KeyUnusable | Cond::KeyKind | Cond::KidNotDid | Cond::Form)
            }
            "non-ASCII case of typ" => c != Cond::Form,
            _ => matches!(c, Cond::NonceExpired | Cond::Nonce | Cond::Aud | Cond::NoOffer | Cond::AsMeta | Cond::MetaDup | Cond::NoProof),
        })
    }
}

pub const MAX_INSTANT: i128 = 8_210_298_412_799 * S;

pub fn proof_type_ok(request: &Value) -> bool {
    match request["proof"].get("proof_type") {
        None => true,
        Some(Value::String(s)) => s.eq_ignore_ascii_case("jwt"),
        _ => false,
    }
}

pub fn analyse(
    now: i128,
    meta: &Value,
    request: &Value,
    offer: Option<&Value>,
    as_meta: bool,
    doc: Option<&Value>,
    opts: Option<&Value>,
) -> Analysis {
    let mut a = Analysis::default();
    let v = &mut a.violated;
    if duplicate_ids(meta) {
        v.insert(Cond::MetaDup);
    }
    if offer.is_none() {
        v.insert(Cond::NoOffer);
    }
    if as_meta {
        v.insert(Cond::AsMeta);
    }
    let c_nonce = opts.and_then(|o| o.get("c_nonce")).filter(|c| !c.is_null());
    if let Some(c) = c_nonce {
        let life = i128::from(c["c_nonce_expires_in"].as_u64().unwrap_or(0));
        if let Some(created) = instant(&c["c_nonce_created_at"]) {
            let expiry = created.ns + life * S;
            a.nonce_slack = Some(expiry - now);
            a.nonce_expiry = Some(expiry);
            if expiry < now {
                v.insert(Cond::NonceExpired);
            }
        }
        a.expected_nonce = c["expected_c_nonce"].as_str().map(str::to_owned);
    }
    a.client_id = opts.and_then(|o| o.get("client_id")).and_then(Value::as_str).map(str::to_owned);
    let jwt = request.get("proof").filter(|p| !p.is_null()).and_then(|p| p["jwt"].as_str());
    let Some(jwt) = jwt else {
        v.insert(Cond::NoProof);
        return a;
    };
    let p = proof(jwt);
    a.unspecified.extend(&p.unspecified);
    if !p.form.is_empty() || !proof_type_ok(request) {
        v.insert(Cond::Form);
    }
    if let Some(nbf) = p.nbf {
        if now < nbf.ns {
            v.insert(Cond::NotYet);
        }
        if (nbf.ns - now).abs() < nbf.eps {
            a.unspecified.push("nbf at floating point precision");
        }
    }
    if let Some(exp) = p.exp {
        if now >= exp.ns {
            v.insert(Cond::Expired);
        }
        if (exp.ns - now).abs() < exp.eps {
            a.unspecified.push("exp at floating point precision");
        }
    }
    if let Some(b) = &p.body {
        let s = |k: &str| b.get(k).and_then(Value::as_str);
        if s("nonce").is_some() && s("nonce") != a.expected_nonce.as_deref() {
            v.insert(Cond::Nonce);
        }
        if s("aud").is_some() && s("aud") != meta["credential_issuer"].as_str() {
            v.insert(Cond::Aud);
        }
        if let Some(o) = offer {
            let g = o.get("grants");
            let has = |k: &str| g.and_then(|g| g.get(k)).map_or(false, |x| !x.is_null());
            let purely_pre = has(PRE) && !has("authorization_code");
            if (a.client_id.is_some() || !purely_pre) && s("iss") != a.client_id.as_deref() {
                if opts.is_none() {
                    // without options there is no c_nonce either: rejected anyway
                    a.unspecified.push("issuer claim without options");
                }
                v.insert(Cond::Iss);
            }
        }
    }
    if p.header.is_some() {
        match p.key_kinds.as_slice() {
            [] => {
                v.insert(Cond::NoKey);
            }
            ["kid"] => {
                if let Some(kid) = &p.kid {
                    match is_did_url(kid) {
                        Some(false) => {
                            v.insert(Cond::KidNotDid);
                        }
                        None => a.unspecified.push("kid of doubtful DID syntax"),
                        Some(true) => {}
                    }
                    if kid.starts_with("did:") {
                        a.did = Some(did_of(kid));
                        match doc {
                            None => {
                                v.insert(Cond::NoDoc);
                            }
                            Some(d) => match resolve_key(d, kid) {
                                Key::Absent => {
                                    v.insert(Cond::MethodAbsent);
                                }
                                Key::Unusable => {
                                    v.insert(Cond::KeyUnusable);
                                }
                                Key::Bytes(b) => a.key = Some(b),
                                Key::Odd(b) => {
                                    a.key = Some(b);
                                    a.unspecified.push("key of a length that Ed25519 does not have");
                                }
                                Key::Unspecified => a.unspecified.push("key of unspecified kind"),
                            },
                        }
                    }
                }
            }
            _ => {
                v.insert(Cond::KeyKind);
            }
        }
    }
    a.unsigned = p.signature.is_none();
    a.proof = Some(p);
    a
}

/// What the library is known to return instead of the proof's signing input (known finding C08):
/// header and claims re-serialized in declaration order, joined by dots, cut by counting dots.
pub fn deviant(p: &ProofView) -> Option<(Vec<u8>, Option<Vec<u8>>)> {
    let h = p.header.as_ref()?;
    let b = p.body.as_ref()?;
    let q = |v: &Value| v.to_string();
    let mut hs = format!("{{\"typ\":{},\"alg\":{}", q(&h["typ"]), q(&h["alg"]));
    for k in ["kid", "jwk", "x5c"] {
        if let Some(x) = h.get(k).filter(|x| !x.is_null()) {
            let s = if x.is_string() { x.clone() } else { Value::String(x.to_string()) };
            hs += &format!(",\"{k}\":{}", q(&s));
        }
    }
    hs.push('}');
    let mut parts = vec![];
    if let Some(i) = b.get("iss").filter(|x| !x.is_null()) {
        parts.push(format!("\"iss\":{}", q(i)));
    }
    parts.push(format!("\"aud\":{}", q(&b["aud"])));
    parts.push(format!("\"sub\":{}", q(b.get("sub").unwrap_or(&Value::Null))));
    parts.push(format!("\"iat\":\"{}\"", rfc(p.iat?.ns)));
    parts.push(format!("\"nonce\":{}", q(&b["nonce"])));
    if let Some(n) = p.nbf {
        parts.push(format!("\"nbf\":\"{}\"", rfc(n.ns)));
    }
    if let Some(n) = p.exp {
        parts.push(format!("\"exp\":\"{}\"", rfc(n.ns)));
    }
    let bs = format!("{{{}}}", parts.join(","));
    let mut s = format!("{hs}.{bs}");
    if let Some(sig) = &p.signature {
        s = format!("{s}.{sig}");
    }
    let pieces: Vec<&str> = s.split('.').collect();
    let message = if pieces.len() == 3 { format!("{}.{}", pieces[0], pieces[1]) } else { s.clone() };
    let signature = s.splitn(3, '.').nth(2).map(|x| x.as_bytes().to_vec());
    Some((message.into_bytes(), signature))
}

// ------------------------------------------------------------------ token request

#[derive(Clone, Debug)]
pub struct TokenCase {
    /// None: authorization_code grant
    pub code: Option<String>,
    pub pin: Option<u64>,
    pub offer: Option<Value>,
    pub expected_pin: Option<u64>,
}

pub fn analyse_token(c: &TokenCase) -> BTreeSet<Cond> {
    let mut v = BTreeSet::new();
    let Some(code) = &c.code else {
        v.insert(Cond::AuthGrant);
        if c.offer.is_none() {
            v.insert(Cond::NoTokenOffer);
        } else if flow(c.offer.as_ref().unwrap(), PRE).is_none() {
            v.insert(Cond::NoPreFlow);
        }
        return v;
    };
    if c.pin.map_or(false, |p| p > 99_999_999) {
        v.insert(Cond::PinTooLong);
    }
    if let Some(p) = c.pin {
        match c.expected_pin {
            None => {
                v.insert(Cond::PinNotExpectedByIssuer);
            }
            Some(e) if e != p => {
                v.insert(Cond::PinWrong);
            }
            _ => {}
        }
    }
    match &c.offer {
        None => {
            v.insert(Cond::NoTokenOffer);
        }
        Some(o) => match flow(o, PRE) {
            None => {
                v.insert(Cond::NoPreFlow);
            }
            Some(p) => {
                if p["pre-authorized_code"].as_str() != Some(code) {
                    v.insert(Cond::Code);
                }
                let required = p["user_pin_required"].as_bool().unwrap_or(false);
                if required && c.pin.is_none() {
                    v.insert(Cond::PinMissing);
                }
                if !required && c.pin.is_some() {
                    v.insert(Cond::PinUnexpected);
                }
            }
        },
    }
    v
}

pub fn flow<'a>(offer: &'a Value, name: &str) -> Option<&'a Value> {
    offer.get("grants").and_then(|g| g.get(name)).filter(|x| !x.is_null())
}
