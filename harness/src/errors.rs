//! The error model at the boundary: C17 (OAuth error responses), C20 (error information), C21 (return objects).
use crate::api::{self, read, ErrView};
use crate::build;
use crate::core::{Ctx, Rng};
use crate::evalx;
use crate::gen::*;
use crate::issuer;
use crate::oracle;
use crate::tokens;
use crate::Def;
use chrono::{DateTime, Utc};
use openid4vci::access_token::error::{AccessTokenError, AccessTokenResult};
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error::{CredentialIssuerError, CredentialIssuerResult};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::error::{JwtError, JwtResult};
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::validate::{Validatable, ValidationError, ValidationResult};
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::str::FromStr;

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C17",
            quick: 3_600_000,
            thorough: 14_400_000,
            case: case_c17,
            extra: Some(codes),
            required: &[
                "token error", "credential error", "description", "no description", "uri", "no uri", "details", "no details", "empty details", "nested details",
                "unknown code refused", "code read", "code AccessToken invalid_request", "code AccessToken invalid_grant", "code AccessToken invalid_client",
                "code AccessToken access_denied", "code AccessToken unsupported_response_type", "code AccessToken invalid_scope", "code AccessToken server_error",
                "code AccessToken temporarily_unavailable", "code CredentialIssuer invalid_request", "code CredentialIssuer invalid_token",
                "code CredentialIssuer unsupported_credential_type", "code CredentialIssuer unsupported_credential_format", "code CredentialIssuer invalid_or_missing_proof",
            ],
            rule: "one case = one error response (either endpoint, any code, arbitrary description, URI and details object): its wire form compared member by member with what was supplied; plus all code conversions both ways and near-miss strings; non-trivial = distinct response",
        },
        Def {
            id: "C20",
            quick: 1_800_000,
            thorough: 7_200_000,
            case: case_c20,
            extra: None,
            required: &[
                "1", "100", "101", "102", "103", "104", "105", "106", "107", "108", "109", "110", "111", "112", "300", "301", "302", "303", "304", "305", "306",
                "307", "308", "309", "310", "311", "312", "313", "314", "315", "316", "400", "401", "402", "403", "404", "405", "406", "407", "409",
                "error of a real token request", "error of a real credential request", "error of a real offer", "error of a real proof operation",
            ],
            rule: "one case = one error value (any variant of the four families, arbitrary contents) or one error returned by a real operation; its code, name, description, additional information and Display compared with an independent table; non-trivial = distinct error value",
        },
        Def {
            id: "C21",
            quick: 1_800_000,
            thorough: 7_200_000,
            case: case_c21,
            extra: None,
            required: &[
                "success", "failure", "no warnings", "one warning", "many warnings", "repeated warning", "validation", "jwt", "credential issuer", "access token",
                "success value null", "operation result",
            ],
            rule: "one case = one result (any of the four result types, value or error, arbitrary contents) turned into a return object, then a sequence of added warnings; in memory and serialized form compared with the result; non-trivial = distinct result and warning list",
        },
    ]
}

// ------------------------------------------------------------------ C17

const AT_CODES: &[(AccessTokenErrorCode, &str)] = &[
    (AccessTokenErrorCode::InvalidRequest, "invalid_request"),
    (AccessTokenErrorCode::InvalidGrant, "invalid_grant"),
    (AccessTokenErrorCode::InvalidClient, "invalid_client"),
    (AccessTokenErrorCode::AccessDenied, "access_denied"),
    (AccessTokenErrorCode::UnsupportedResponseType, "unsupported_response_type"),
    (AccessTokenErrorCode::InvalidScope, "invalid_scope"),
    (AccessTokenErrorCode::ServerError, "server_error"),
    (AccessTokenErrorCode::TemporarilyUnavailable, "temporarily_unavailable"),
];

const CI_CODES: &[(CredentialIssuerErrorCode, &str)] = &[
    (CredentialIssuerErrorCode::InvalidRequest, "invalid_request"),
    (CredentialIssuerErrorCode::InvalidToken, "invalid_token"),
    (CredentialIssuerErrorCode::UnsupportedCredentialType, "unsupported_credential_type"),
    (CredentialIssuerErrorCode::UnsupportedCredentialFormat, "unsupported_credential_format"),
    (CredentialIssuerErrorCode::InvalidOrMissingProof, "invalid_or_missing_proof"),
];

fn opt_text(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some((*r.pick(&["", "null", "invalid_request", "https://example.com/errors#1", "error", "0"])).to_owned()),
        _ => Some(text(r)),
    }
}

fn gen_details(r: &mut Rng) -> Option<Value> {
    let key = |r: &mut Rng| -> String {
        match r.below(3) {
            0 => (*r.pick(&["c_nonce", "c_nonce_expires_in", "interval", "code", "Error", "error ", "errors", "error_descriptions", "error-uri", "format", ""])).to_owned(),
            _ => text(r),
        }
    };
    match r.below(8) {
        0 | 1 => None,
        2 => Some(Value::Null),
        3 => Some(json!({})),
        _ => {
            let n = 1 + some(r, 4, 60);
            let mut m = Map::new();
            for _ in 0..n {
                let k = key(r);
                // the three members of the response itself: which one wins is not specified
                if !["error", "error_description", "error_uri"].contains(&k.as_str()) {
                    let v = any_json(r, 3);
                    m.insert(k, v);
                }
            }
            Some(Value::Object(m))
        }
    }
}

fn case_c17(ctx: &mut Ctx, r: &mut Rng) {
    let (desc, uri, details) = (opt_text(r), opt_text(r), gen_details(r));
    let token = r.flip();
    let i = r.below(if token { AT_CODES.len() } else { CI_CODES.len() });
    let code = if token { AT_CODES[i].1 } else { CI_CODES[i].1 };
    let w = json!({"endpoint": if token { "token" } else { "credential" }, "code": code, "description": desc, "uri": uri, "details": details});
    let args = (desc.clone(), uri.clone(), details.clone());
    let text = if token {
        ctx.lib("create_access_token_error_response", || w.clone(), || {
            AccessToken::create_access_token_error_response(AT_CODES[i].0.clone(), args.0, args.1, args.2)
                .map_err(|e| format!("{e}"))
                .and_then(|x| to_text(&x))
        })
    } else {
        ctx.lib("create_credential_error_response", || w.clone(), || {
            CredentialIssuer::create_credential_error_response(&CI_CODES[i].0, args.0, args.1, args.2)
                .map_err(|e| format!("{e}"))
                .and_then(|x| to_text(&x))
        })
    };
    let Some(text) = text else { return };
    ctx.decided(&w.to_string(), true);
    ctx.class(if token { "token error" } else { "credential error" });
    ctx.class(&format!("code {} {code}", if token { "AccessToken" } else { "CredentialIssuer" }));
    ctx.class(if desc.is_some() { "description" } else { "no description" });
    ctx.class(if uri.is_some() { "uri" } else { "no uri" });
    match details.as_ref().and_then(Value::as_object) {
        None => ctx.class("no details"),
        Some(o) if o.is_empty() => ctx.class("empty details"),
        Some(o) => {
            ctx.class("details");
            if o.values().any(|v| v.is_object() || v.is_array()) {
                ctx.class("nested details");
            }
        }
    }
    let v: Value = match text.and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            ctx.violation(format!("the error response cannot be created and serialized: {e}"), w);
            return;
        }
    };
    let Some(o) = v.as_object() else {
        ctx.violation(format!("the error response is {v}"), w);
        return;
    };
    ctx.check(o.get("error") == Some(&json!(code)), || format!("the error member is {:?}", o.get("error")), || w.clone());
    for (k, want) in [("error_description", &desc), ("error_uri", &uri)] {
        let got = o.get(k).cloned().unwrap_or(Value::Null);
        ctx.check(got == json!(want), || format!("{k} is {got}"), || w.clone());
    }
    let mut extra = o.clone();
    for k in ["error", "error_description", "error_uri"] {
        extra.remove(k);
    }
    let want = details.as_ref().and_then(Value::as_object).cloned().unwrap_or_default();
    ctx.check(extra == want, || format!("the response has the further members {extra:?}"), || w.clone());
    ctx.sample(|| json!({"input": w, "wire": v}));
}

fn to_text<T: Serialize>(x: &T) -> Result<String, String> {
    serde_json::to_string(x).map_err(|e| e.to_string())
}

fn codes(ctx: &mut Ctx) {
    macro_rules! family {
        ($codes:expr, $t:ty, $family:literal) => {{
            let known: Vec<&str> = $codes.iter().map(|(_, s)| *s).collect();
            for (c, s) in $codes {
                let w = json!({"family": $family, "code": s});
                let got = ctx.lib("code to string", || w.clone(), || <$t as Into<&str>>::into(c.clone()));
                ctx.decided(&w.to_string(), true);
                ctx.check(got == Some(*s), || format!("the code converts to {got:?}"), || w.clone());
                let back = ctx.lib("code from string", || w.clone(), || <$t>::try_from((*s).to_owned()));
                ctx.check(back == Some(Ok(c.clone())), || format!("the string converts to {back:?}"), || w.clone());
                let wire = ctx.lib("serialize code", || w.clone(), || serde_json::to_value(c).ok()).flatten();
                ctx.check(wire == Some(json!(s)), || format!("the code serializes as {wire:?}"), || w.clone());
                let parsed = ctx.lib("parse code", || w.clone(), || serde_json::from_value::<$t>(json!(s)).ok()).flatten();
                ctx.check(parsed.as_ref() == Some(c), || format!("the JSON string parses to {parsed:?}"), || w.clone());
                ctx.class("code read");
            }
            let mut r = Rng::new(crate::core::seed_for(ctx.seed, "C17-codes", 1));
            for _ in 0..20_000 {
                let s = match r.below(4) {
                    0 => text(&mut r),
                    1 => (*r.pick(&["", "InvalidRequest", "invalidRequest", "INVALID_REQUEST", "unauthorized_client", "unsupported_grant_type", "invalid_proof", "invalid_nonce"])).to_owned(),
                    _ => {
                        let k = (*r.pick(&known)).to_owned();
                        near(&mut r, &k).0
                    }
                };
                let w = json!({"family": $family, "string": s});
                let got = ctx.lib("code from string", || w.clone(), || <$t>::try_from(s.clone()));
                ctx.decided(&w.to_string(), true);
                let want = $codes.iter().find(|(_, k)| *k == s).map(|(c, _)| c.clone());
                match (want, got) {
                    (Some(c), Some(g)) => {
                        ctx.check(g.as_ref().ok() == Some(&c), || format!("the string converts to {g:?}"), || w.clone());
                    }
                    (None, Some(g)) => {
                        ctx.class("unknown code refused");
                        ctx.check(g.is_err(), || format!("the unknown string converts to {g:?}"), || w.clone());
                        let p = ctx.lib("parse code", || w.clone(), || serde_json::from_value::<$t>(json!(s)).ok()).flatten();
                        ctx.check(p.is_none(), || format!("the unknown string parses to {p:?}"), || w.clone());
                    }
                    _ => {}
                }
            }
        }};
    }
    family!(AT_CODES, AccessTokenErrorCode, "AccessToken");
    family!(CI_CODES, CredentialIssuerErrorCode, "CredentialIssuer");
}

// ------------------------------------------------------------------ C20

/// What the documentation says about an error.
pub struct Doc {
    pub code: u32,
    pub name: &'static str,
    pub description: String,
    /// the values it carries (null: none)
    pub values: Value,
}

fn doc(code: u32, name: &'static str, description: impl Into<String>, values: Value) -> Doc {
    Doc { code, name, description: description.into(), values }
}

fn any_instant(r: &mut Rng) -> DateTime<Utc> {
    match r.below(10) {
        0 => DateTime::<Utc>::MIN_UTC,
        1 => DateTime::<Utc>::MAX_UTC,
        2 => dt(-1).unwrap_or_default(),
        3 => dt(i128::from(r.range(-62_135_596_801, 253_402_300_800)) * S + i128::from(r.range(0, 999_999_999))).unwrap_or_default(),
        _ => dt(now(r)).unwrap_or_default(),
    }
}

fn opt_ident(r: &mut Rng) -> Option<String> {
    if r.one_in(3) {
        None
    } else {
        Some(text(r))
    }
}

pub fn gen_validation(r: &mut Rng) -> (ValidationError, Doc) {
    let m = text(r);
    (
        ValidationError::Any { validation_message: m.clone() },
        doc(1, "Any", "An error occurred during validation, serialization or deserialization", json!({ "validation_message": m })),
    )
}

fn bytes_opt(r: &mut Rng) -> Option<Vec<u8>> {
    if r.flip() {
        None
    } else {
        let n = r.below(40);
        Some(r.bytes(n))
    }
}

pub fn gen_jwt(r: &mut Rng) -> (JwtError, Doc) {
    let (a, b) = (text(r), text(r));
    let (t, n) = (any_instant(r), any_instant(r));
    match r.below(17) {
        0 => {
            let (e, d) = gen_validation(r);
            (JwtError::ValidationError(e), doc(300, "ValidationError", "An error occurred while validating", d.values))
        }
        1 => (
            JwtError::NotYetValid { valid_from: t, now: n },
            doc(301, "NotYetValid", format!("JWT is not yet valid. Valid from: {t} and checked at {n}"), json!({"valid_from": t, "now": n})),
        ),
        2 => (
            JwtError::NotValidAnymore { valid_until: t, now: n },
            doc(302, "NotValidAnymore", format!("JWT is not valid anymore. Valid until: {t} and checked at {n}"), json!({"valid_until": t, "now": n})),
        ),
        3 => {
            let (x, y) = (opt_ident(r), opt_ident(r));
            let d = doc(303, "IssuerMismatch", "`iss` field in the body mismatched with provided client id", json!({"expected_iss_in_jwt": x, "actual_iss_in_jwt": y}));
            (JwtError::IssuerMismatch { expected_iss_in_jwt: x, actual_iss_in_jwt: y }, d)
        }
        4 => (JwtError::NoKeyFoundInProof, doc(304, "NoKeyFoundInProof", "No `kid`, `jwk` or `x5c` found in the JWT header", Value::Null)),
        5 => (
            JwtError::NoDidDocumentProvidedForKidAsDid,
            doc(305, "NoDidDocumentProvidedForKidAsDid", "No did document provided when the `kid` is a did", Value::Null),
        ),
        6 => {
            let d = doc(306, "UnableToTransformIntoDid", "Unable to transform did, from `kid`, into a Did type", json!({"kid": a, "message": b}));
            (JwtError::UnableToTransformIntoDid { kid: a, message: b }, d)
        }
        7 => {
            let d = doc(
                307,
                "UnableToResolveDidInDidDocument",
                "Unable to find the verification method the did, `kid`, was referring to",
                json!({"did": a, "message": b}),
            );
            (JwtError::UnableToResolveDidInDidDocument { did: a, message: b }, d)
        }
        8 => {
            let d = doc(308, "UnableToMapVerificationMethodToJwk", "Unable to map the verification method to a JWK", json!({ "messsage": a }));
            (JwtError::UnableToMapVerificationMethodToJwk { messsage: a }, d)
        }
        9 => {
            let d = doc(
                309,
                "UnableToTransformIntoJoseItem",
                format!("Unable to convert '{a}' into a valid Jose Item"),
                json!({"original_string": a, "serde_message": b}),
            );
            (JwtError::UnableToTransformIntoJoseItem { original_string: a, serde_message: b }, d)
        }
        10 => {
            let d = doc(310, "UnsupportedAlgorithm", format!("supplied algorithm, '{a}' is not valid"), json!({ "algorithm": a }));
            (JwtError::UnsupportedAlgorithm { algorithm: a }, d)
        }
        11 => (JwtError::EdDSAHasNoXCoordinate, doc(311, "EdDSAHasNoXCoordinate", "JWK with algorithm of 'edDSA' has no x coordinate", Value::Null)),
        12 => {
            let (x, y) = (bytes_opt(r), bytes_opt(r));
            let d = doc(
                312,
                "ESXXXHasNoXOrYCoordinate",
                format!("JWK with algorithm of '{a}' has no 'x' or 'y' coordinate"),
                json!({"algorithm": a, "x": x, "y": y}),
            );
            (JwtError::ESXXXHasNoXOrYCoordinate { algorithm: a, x, y }, d)
        }
        13 => {
            let d = doc(313, "SignatureNotInJwt", "Signature was expected but not found in the JWT", json!({ "jwt": a }));
            (JwtError::SignatureNotInJwt { jwt: a }, d)
        }
        14 => {
            let d = doc(
                314,
                "UnsupportedKeyTypeInJwtHeader",
                format!("Unsupported key type `{b}` found in JWT header"),
                json!({"key_name": a, "key_type": b}),
            );
            (JwtError::UnsupportedKeyTypeInJwtHeader { key_name: a, key_type: b }, d)
        }
        15 => {
            let x = opt_ident(r);
            let d = doc(315, "NonceMismatch", "Expected nonce was not found in the JWT", json!({"expected_nonce": x, "actual_nonce": a}));
            (JwtError::NonceMismatch { expected_nonce: x, actual_nonce: a }, d)
        }
        _ => {
            let d = doc(
                316,
                "AudienceMismatch",
                "`aud` field in the body mismatched with provided credential issuer url",
                json!({"expected_aud_in_jwt": a, "actual_aud_in_jwt": b}),
            );
            (JwtError::AudienceMismatch { expected_aud_in_jwt: a, actual_aud_in_jwt: b }, d)
        }
    }
}

pub fn gen_ci(r: &mut Rng) -> (CredentialIssuerError, Doc) {
    use CredentialIssuerError as E;
    let a = text(r);
    let (t, n) = (any_instant(r), any_instant(r));
    match r.below(13) {
        0 => {
            let (e, d) = gen_validation(r);
            (E::ValidationError(e), doc(100, "ValidationError", d.description, d.values))
        }
        1 => {
            let (e, d) = gen_jwt(r);
            (E::JwtError(e), doc(101, "JwtError", d.description, d.values))
        }
        2 => (E::AuthorizedFlowNotSupported, doc(102, "AuthorizedFlowNotSupported", "The Authorized flow is currently not supported", Value::Null)),
        3 => {
            let d = doc(
                103,
                "CredentialIdNotInIssuerMetadata",
                format!("The id `{a}` does not refer to a credential format inside the issuer metadata"),
                json!({ "id": a }),
            );
            (E::CredentialIdNotInIssuerMetadata { id: a }, d)
        }
        4 => {
            let d = doc(104, "InvalidCredentialOfferEncoding", "Could not url-encode the credential", json!({ "error_message": a }));
            (E::InvalidCredentialOfferEncoding { error_message: a }, d)
        }
        5 => {
            let p = profile(r);
            let n = r.below(4);
            let l: Vec<Value> = (0..n).map(|_| profile(r)).collect();
            let e = E::InvalidRequestedCredential {
                requested_credential: Box::new(build::profile(&p)),
                supported_formats: l.iter().map(build::profile).collect(),
            };
            (
                e,
                doc(
                    105,
                    "InvalidRequestedCredential",
                    "Requested credential not found in issuer metadata",
                    json!({"requested_credential": p, "supported_formats": l}),
                ),
            )
        }
        6 => {
            let x = if r.flip() { Some(t) } else { None };
            (
                E::ExpiredCNonce { now: n, expires_in: x },
                doc(106, "ExpiredCNonce", "`c_nonce_expires_in` is not valid anymore.", json!({"now": n, "expires_in": x})),
            )
        }
        7 => (
            E::CredentialAndAcceptanceTokenSupplied,
            doc(107, "CredentialAndAcceptanceTokenSupplied", "Credential and acceptance token cannot both be supplied for the success response", Value::Null),
        ),
        8 => (
            E::AuthorizationServerMetadataNotSupported,
            doc(108, "AuthorizationServerMetadataNotSupported", "Authorization server metadata is not yet supported", Value::Null),
        ),
        9 => (
            E::CredentialOfferMustBeSupplied,
            doc(109, "CredentialOfferMustBeSupplied", "Credential offer must be supplied, other flows are not supported yet", Value::Null),
        ),
        10 => {
            let d = doc(
                110,
                "EvaluteCredentialRequestOptionsNotSupplied",
                "evaluate credential request called without options, but were needed",
                json!({ "reason": a }),
            );
            (E::EvaluteCredentialRequestOptionsNotSupplied { reason: a }, d)
        }
        11 => (
            E::CNonceIsExpired { now: n, expiry_timestamp: t },
            doc(111, "CNonceIsExpired", format!("c_nonce expires at {t} which is before {n}"), json!({"now": n, "expiry_timestamp": t})),
        ),
        _ => (
            E::NoProofInCredentialRequest,
            doc(112, "NoProofInCredentialRequest", "The credential request does not contain a JWT proof", Value::Null),
        ),
    }
}

pub fn gen_at(r: &mut Rng, depth: usize) -> (AccessTokenError, Doc) {
    use AccessTokenError as E;
    match r.below(if depth == 0 { 8 } else { 9 }) {
        0 => {
            let (e, d) = gen_validation(r);
            (E::ValidationError(e), doc(400, "ValidationError", d.description, d.values))
        }
        1 => {
            let a = text(r);
            let n = r.below(4);
            let l: Vec<String> = (0..n).map(|_| text(r)).collect();
            let d = doc(401, "InvalidGrantType", "Invalid requested grant type", json!({"requested_grant_type": a, "accepted_grant_type": l}));
            (E::InvalidGrantType { requested_grant_type: a, accepted_grant_type: l }, d)
        }
        2 => (E::AuthorizedFlowNotSupported, doc(402, "AuthorizedFlowNotSupported", "The Authorized flow is currently not supported", Value::Null)),
        3 => (
            E::NoFlowSupportedInCredentialOffer,
            doc(403, "NoFlowSupportedInCredentialOffer", "Supplied credential offer has no authorized, or pre-authorized, code flow", Value::Null),
        ),
        4 => {
            let (x, y) = (r.flip(), r.flip());
            (
                E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: x, does_code_match: y },
                doc(
                    404,
                    "InvalidPreAuthorizedCodeFlowValues",
                    "Requested pre-authorized code flow has invalid values",
                    json!({"should_pin_be_supplied": x, "does_code_match": y}),
                ),
            )
        }
        5 => {
            let a = text(r);
            let d = doc(406, "OptionsAreRequiredForEvaluation", "Options are required when evaluating the access token request", json!({ "reason": a }));
            (E::OptionsAreRequiredForEvaluation { reason: a }, d)
        }
        6 => (
            E::UserPinMismatch,
            doc(407, "UserPinMismatch", "Provided user pin does not match user pin from access token request", Value::Null),
        ),
        7 => (
            E::CredentialOfferMustBeSupplied,
            doc(409, "CredentialOfferMustBeSupplied", "Access token request is not yet supported without a credential offer", Value::Null),
        ),
        _ => {
            let (x, dx) = gen_at(r, depth - 1);
            let (y, dy) = gen_at(r, depth - 1);
            (
                E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(x), pre_authorized_error: Box::new(y) },
                doc(
                    405,
                    "InvalidAuthorizedAndPreAuthorizedCodeFlow",
                    "Both the authorized and pre-authorized are incorrect",
                    json!({"authorized_error": dx.values, "pre_authorized_error": dy.values}),
                ),
            )
        }
    }
}

/// Are all the values the error carries in the additional information, under their names?
fn carries(got: &Value, want: &Value) -> bool {
    match want {
        Value::Null => got.is_null() || got.as_object().map_or(false, Map::is_empty),
        Value::Object(o) => {
            let Some(g) = got.as_object() else { return false };
            o.iter().all(|(k, v)| {
                let x = match (k.as_str(), g.get(k)) {
                    // spelled with three s in the error
                    ("messsage", None) => g.get("message"),
                    (_, x) => x,
                };
                let x = x.cloned().unwrap_or(Value::Null);
                if v.is_object() {
                    carries(&x, v)
                } else {
                    x == *v
                }
            })
        }
        _ => got == want,
    }
}

pub fn judge_information(ctx: &mut Ctx, i: &ErrorInformation, d: &Doc, w: &Value) {
    ctx.check(i.code == d.code, || format!("the code is {} instead of {}", i.code, d.code), || w.clone());
    ctx.check(i.name == d.name, || format!("the name is {:?} instead of {}", i.name, d.name), || w.clone());
    ctx.check(i.description == d.description, || format!("the description is {:?} instead of {:?}", i.description, d.description), || w.clone());
    let got = i.additional_information.clone().unwrap_or(Value::Null);
    let exact = d.code == 105;
    let ok = if exact { oracle::same_json(&got, &d.values) } else { carries(&got, &d.values) };
    ctx.check(ok, || format!("the additional information is {got} instead of {}", d.values), || w.clone());
    judge_serialized(ctx, i, w);
}

/// Serializing and displaying the information keeps every part of it.
fn judge_serialized(ctx: &mut Ctx, i: &ErrorInformation, w: &Value) {
    let text = ctx.lib("serialize error information", || w.clone(), || serde_json::to_string(i)).and_then(Result::ok);
    let v: Option<Value> = text.as_ref().and_then(|t| serde_json::from_str(t).ok());
    let Some(v) = v else {
        ctx.violation("the error information is not serialized to JSON", w.clone());
        return;
    };
    let parts = v["code"] == json!(i.code) && v["name"] == json!(i.name) && v["description"] == json!(i.description);
    let additional = v.get("additional_information").cloned().unwrap_or(Value::Null) == i.additional_information.clone().unwrap_or(Value::Null);
    ctx.check(parts && additional, || format!("the serialized information is {v}"), || w.clone());
    let shown = ctx.lib("display error information", || w.clone(), || i.to_string());
    let back: Option<Value> = shown.as_ref().and_then(|s| serde_json::from_str(s).ok());
    ctx.check(back.as_ref() == Some(&v), || format!("displayed as {shown:?}"), || w.clone());
}

fn case_c20(ctx: &mut Ctx, r: &mut Rng) {
    if r.one_in(8) {
        real_errors(ctx, r);
        return;
    }
    macro_rules! one {
        ($e:expr, $family:literal) => {{
            let (e, d) = $e;
            let w = json!({"family": $family, "error": format!("{e:?}")});
            let Some(i) = ctx.lib("information", || w.clone(), || e.information()) else { return };
            ctx.decided(&w.to_string(), true);
            ctx.class(&d.code.to_string());
            judge_information(ctx, &i, &d, &w);
            // moved elsewhere in memory, the error stays the same error
            let boxed = vec![Box::new(e.clone()), Box::new(e)];
            for b in &boxed {
                let c = ctx.lib("information", || w.clone(), || b.information().code);
                ctx.check(c == Some(d.code), || format!("the code of a copy is {c:?}"), || w.clone());
            }
            ctx.sample(|| json!({"input": w, "information": i}));
        }};
    }
    match r.below(8) {
        0 => one!(gen_validation(r), "validation"),
        1..=3 => one!(gen_jwt(r), "jwt"),
        4 | 5 => one!(gen_ci(r), "credential issuer"),
        _ => one!(gen_at(r, 3), "access token"),
    }
}

/// the error as observed by the harness against the information the library makes of it
fn judge_real(ctx: &mut Ctx, v: &ErrView, i: &ErrorInformation, op: &str, w: &Value) {
    ctx.class(op);
    ctx.decided(&(op, w.to_string()), true);
    ctx.check(
        i.code == v.code && i.name == v.name,
        || format!("{op}: {} is reported as {} {:?}", v.name, i.code, i.name),
        || w.clone(),
    );
    ctx.check(!i.description.is_empty(), || format!("{op}: no description"), || w.clone());
    let got = i.additional_information.clone().unwrap_or(Value::Null);
    for (k, x) in v.fields.as_object().into_iter().flatten() {
        let k = if v.name == "ExpiredCNonce" && k == "expiry_timestamp" { "expires_in" } else { k.as_str() };
        let g = got.get(k).cloned().unwrap_or(Value::Null);
        let g = match oracle::instant(&g) {
            Some(t) if !g.is_number() && x.as_str().map_or(false, |s| s.parse::<i128>().is_ok()) => json!(t.ns.to_string()),
            _ => g,
        };
        ctx.check(g == *x, || format!("{op}: {k} is {g} instead of {x}"), || w.clone());
    }
    judge_serialized(ctx, i, w);
}

fn real_errors(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(4) {
        0 => {
            let (c, _, opts) = tokens::gen_case(r, true);
            let Ok(req) = api::token_request(c.code.as_deref(), c.pin) else { return };
            let Ok(o) = api::token_opts(opts, c.expected_pin) else { return };
            let offer = match &c.offer {
                None => None,
                Some(v) => Some(build::offer(v)),
            };
            let w = tokens::witness(&c, &Value::Null);
            if let Some(Err(e)) = ctx.lib("evaluate_access_token_request", || w.clone(), || AccessToken::evaluate_access_token_request(&req, offer, o)) {
                if let Some(i) = ctx.lib("information", || w.clone(), || e.information()) {
                    judge_real(ctx, &api::view_at(&e), &i, "error of a real token request", &w);
                }
            }
        }
        1 => {
            let s = evalx::scenario(
                r,
                &[
                    oracle::Cond::MetaDup, oracle::Cond::NoOffer, oracle::Cond::AsMeta, oracle::Cond::NonceExpired, oracle::Cond::NoProof, oracle::Cond::Nonce,
                    oracle::Cond::Iss, oracle::Cond::Aud, oracle::Cond::NoDoc, oracle::Cond::MethodAbsent, oracle::Cond::KeyUnusable, oracle::Cond::Expired,
                ],
            );
            evalx::set_clock(s.now);
            let Ok(i) = evalx::inputs(ctx, &s) else { return };
            let w = s.input();
            let res = ctx.lib("evaluate_credential_request", || w.clone(), || {
                CredentialIssuer::evaluate_credential_request(&i.meta, &i.request, i.offer.as_ref(), i.as_meta.as_ref(), i.doc.as_ref(), i.opts.clone()).err()
            });
            if let Some(Some(e)) = res {
                if let Some(i) = ctx.lib("information", || w.clone(), || e.information()) {
                    judge_real(ctx, &api::view_ci(&e), &i, "error of a real credential request", &w);
                }
            }
        }
        2 => {
            let c = issuer::gen_offer(r, true);
            let w = c.json();
            let meta = build::metadata(&c.meta);
            let creds = build::credential_or_ids(&Value::Array(c.creds.clone()));
            let (auth, pre) = (c.auth.as_ref().and_then(build::auth_flow), c.pre.as_ref().and_then(build::pre_flow));
            let res = ctx.lib("create_offer", || w.clone(), || CredentialIssuer::create_offer(&meta, creds, &c.endpoint, &auth, &pre).err());
            if let Some(Some(e)) = res {
                if let Some(i) = ctx.lib("information", || w.clone(), || e.information()) {
                    judge_real(ctx, &api::view_ci(&e), &i, "error of a real offer", &w);
                }
            }
        }
        _ => {
            let mut s = honest(r);
            if r.flip() {
                crate::forms::break_form(r, &mut s);
            } else {
                let c = *r.pick(&[oracle::Cond::NotYet, oracle::Cond::Expired, oracle::Cond::KidNotDid, oracle::Cond::KeyKind, oracle::Cond::NoKey]);
                evalx::mutate(r, &mut s, c);
            }
            evalx::set_clock(s.now);
            let Some(jwt) = s.jwt() else { return };
            let w = json!({"jwt": jwt, "now_ns": s.now.to_string()});
            let doc: Option<openid4vci::Document> = s.doc.as_ref().and_then(|d| read(d).ok());
            let e = ctx.lib("proof operations", || w.clone(), || match ProofJwt::from_str(&jwt) {
                Err(e) => Some(JwtError::ValidationError(e)),
                Ok(p) => p
                    .validate()
                    .map_err(JwtError::from)
                    .and_then(|()| p.verify())
                    .and_then(|()| p.check_nonce(Some("another".into())))
                    .and_then(|()| p.extract_key_and_alg(doc.as_ref()).map(|_| ()))
                    .err(),
            });
            if let Some(Some(e)) = e {
                if let Some(i) = ctx.lib("information", || w.clone(), || e.information()) {
                    judge_real(ctx, &api::view_jwt(&e), &i, "error of a real proof operation", &w);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, PartialEq, Serialize)]
struct Payload {
    a: Value,
    b: Option<String>,
}

fn warnings(r: &mut Rng) -> Vec<String> {
    if r.one_in(4000) {
        let n = 900 + r.below(4000);
        return (0..n).map(|i| format!("{i} {}", token(r, 2))).collect();
    }
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => 2 + r.below(6),
        _ => r.below(40),
    };
    let mut v: Vec<String> = (0..n).map(|_| text(r)).collect();
    if n > 1 && r.flip() {
        v[n - 1] = v[0].clone();
    }
    v
}

fn case_c21(ctx: &mut Ctx, r: &mut Rng) {
    let ok = r.flip();
    let warn = warnings(r);
    let value = match r.below(4) {
        0 => Value::Null,
        _ => any_json(r, 2),
    };
    let payload = Payload { a: value.clone(), b: if r.flip() { Some(text(r)) } else { None } };
    macro_rules! one {
        ($name:literal, $res:ident, $gen:expr) => {{
            ctx.class($name);
            let (e, _) = $gen;
            let w = json!({"family": $name, "ok": ok, "value": payload, "error": format!("{e:?}"), "warnings": warn});
            let info = match ctx.lib("information", || w.clone(), || e.information()) {
                Some(i) => serde_json::to_value(i).unwrap_or(Value::Null),
                None => return,
            };
            match r.below(3) {
                0 => {
                    let x: $res<Payload> = if ok { Ok(payload.clone()) } else { Err(e) };
                    object(ctx, &x, if ok { Ok(json!(payload)) } else { Err(info) }, x.as_ref().ok(), &warn, &w);
                }
                1 => {
                    let x: $res<Value> = if ok { Ok(value.clone()) } else { Err(e) };
                    object(ctx, &x, if ok { Ok(value.clone()) } else { Err(info) }, x.as_ref().ok(), &warn, &w);
                }
                _ => {
                    let x: $res<()> = if ok { Ok(()) } else { Err(e) };
                    object(ctx, &x, if ok { Ok(Value::Null) } else { Err(info) }, x.as_ref().ok(), &warn, &w);
                }
            }
        }};
    }
    match r.below(9) {
        0 | 1 => one!("validation", ValidationResult, gen_validation(r)),
        2 | 3 => one!("jwt", JwtResult, gen_jwt(r)),
        4 | 5 => one!("credential issuer", CredentialIssuerResult, gen_ci(r)),
        6 | 7 => one!("access token", AccessTokenResult, gen_at(r, 2)),
        _ => {
            // the result of an operation
            ctx.class("operation result");
            let (c, _, opts) = tokens::gen_case(r, true);
            let (Ok(req), Ok(o)) = (api::token_request(c.code.as_deref(), c.pin), api::token_opts(opts, c.expected_pin)) else { return };
            let offer = c.offer.as_ref().map(build::offer);
            let w = tokens::witness(&c, &Value::Null);
            let Some(res) = ctx.lib("evaluate_access_token_request", || w.clone(), || AccessToken::evaluate_access_token_request(&req, offer, o)) else { return };
            let want = match &res {
                Ok(()) => Ok(Value::Null),
                Err(e) => Err(serde_json::to_value(e.information()).unwrap_or(Value::Null)),
            };
            object(ctx, &res, want, res.as_ref().ok(), &warn, &w);
        }
    }
}

fn object<T, R>(ctx: &mut Ctx, res: &R, want: Result<Value, Value>, value: Option<&T>, warn: &[String], w: &Value)
where
    R: ToReturnObject<T, ErrorInformation, String>,
    T: Serialize + Clone + PartialEq + std::fmt::Debug,
{
    let Some(mut o) = ctx.lib("to_return_object", || w.clone(), || res.to_return_object()) else { return };
    ctx.decided(&w.to_string(), true);
    ctx.class(if want.is_ok() { "success" } else { "failure" });
    if want == Ok(Value::Null) {
        ctx.class("success value null");
    }
    ctx.check(o.warnings.as_ref().map_or(true, Vec::is_empty), || "warnings that nobody added".into(), || w.clone());
    state(ctx, &o, &want, value, &[], w);
    for (i, x) in warn.iter().enumerate() {
        let Some(next) = ctx.lib("add_warning", || w.clone(), || o.add_warning(x.clone())) else { return };
        o = next;
        if i < 3 || i + 1 == warn.len() {
            state(ctx, &o, &want, value, &warn[..=i], w);
        }
    }
    ctx.class(match warn.len() {
        0 => "no warnings",
        1 => "one warning",
        _ => "many warnings",
    });
    if warn.len() > 1 && warn[0] == warn[warn.len() - 1] {
        ctx.class("repeated warning");
    }
}

fn state<T>(ctx: &mut Ctx, o: &ReturnObject<T, ErrorInformation, String>, want: &Result<Value, Value>, value: Option<&T>, warn: &[String], w: &Value)
where
    T: Serialize + Clone + PartialEq + std::fmt::Debug,
{
    ctx.check(o.info.as_ref() == value, || format!("info is {:?}", o.info), || w.clone());
    let err = o.error.as_ref().map(|e| serde_json::to_value(e).unwrap_or(Value::Null));
    ctx.check(err.as_ref() == want.as_ref().err(), || format!("error is {err:?}"), || w.clone());
    let got = o.warnings.clone().unwrap_or_default();
    ctx.check(got == warn, || format!("the warnings are {got:?} after adding {warn:?}"), || w.clone());
    let v: Value = match ctx.lib("serialize return object", || w.clone(), || serde_json::to_string(o)).and_then(Result::ok) {
        Some(t) => serde_json::from_str(&t).unwrap_or(Value::Null),
        None => {
            ctx.violation("the return object cannot be serialized", w.clone());
            return;
        }
    };
    match want {
        Ok(x) => {
            ctx.check(v.get("info") == Some(x), || format!("serialized info is {:?}", v.get("info")), || w.clone());
            ctx.check(v.get("error").is_none(), || format!("a success is serialized with error {:?}", v.get("error")), || w.clone());
        }
        Err(x) => {
            ctx.check(v.get("error") == Some(x), || format!("serialized error is {:?}", v.get("error")), || w.clone());
            ctx.check(v.get("info").is_none(), || format!("a failure is serialized with info {:?}", v.get("info")), || w.clone());
        }
    }
    let sw = v.get("warnings").cloned().unwrap_or(Value::Null);
    ctx.check(sw == json!(warn) || (warn.is_empty() && sw.is_null()), || format!("the serialized warnings are {sw}"), || w.clone());
}
