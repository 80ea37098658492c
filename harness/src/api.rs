//! The observed boundary: how the harness calls the library and what it records of an answer.
use crate::core::guarded;
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::{
    CredentialIssuer, CredentialIssuerEvaluateRequestResponse, CredentialOffer, EvaluateCredentialRequestOptions,
};
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::ProofJwtAlgorithm;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::validate::ValidationError;
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};

/// An error as observed: which condition it names, with which values. Built from the variants, not
/// from the library's own code/serialization (those are themselves under test in C20).
#[derive(Clone, Debug, PartialEq)]
pub struct ErrView {
    pub code: u32,
    pub name: &'static str,
    pub fields: Value,
    pub inner: Vec<ErrView>,
}

fn ev(code: u32, name: &'static str, fields: Value) -> ErrView {
    ErrView { code, name, fields, inner: vec![] }
}

impl ErrView {
    /// the most specific error (through transparent wrappers)
    pub fn leaf(&self) -> &ErrView {
        if self.code == 100 || self.code == 101 || self.code == 300 || self.code == 400 {
            if let Some(i) = self.inner.first() {
                return i.leaf();
            }
        }
        self
    }
    pub fn json(&self) -> Value {
        json!({"code": self.code, "name": self.name, "fields": self.fields, "inner": self.inner.iter().map(ErrView::json).collect::<Vec<_>>()})
    }
}

fn t(d: &chrono::DateTime<chrono::Utc>) -> Value {
    json!(crate::gen::nanos(d).to_string())
}

pub fn view_validation(e: &ValidationError) -> ErrView {
    #[allow(unreachable_patterns)]
    match e {
        ValidationError::Any { .. } => ev(1, "Any", json!({})),
        _ => ev(0, "?", json!({})),
    }
}

pub fn view_jwt(e: &JwtError) -> ErrView {
    use JwtError as E;
    #[allow(unreachable_patterns)]
    match e {
        E::ValidationError(v) => ErrView { code: 300, name: "ValidationError", fields: json!({}), inner: vec![view_validation(v)] },
        E::NotYetValid { valid_from, now } => ev(301, "NotYetValid", json!({"valid_from": t(valid_from), "now": t(now)})),
        E::NotValidAnymore { valid_until, now } => ev(302, "NotValidAnymore", json!({"valid_until": t(valid_until), "now": t(now)})),
        E::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt } => {
            ev(303, "IssuerMismatch", json!({"expected_iss_in_jwt": expected_iss_in_jwt, "actual_iss_in_jwt": actual_iss_in_jwt}))
        }
        E::NoKeyFoundInProof => ev(304, "NoKeyFoundInProof", json!({})),
        E::NoDidDocumentProvidedForKidAsDid => ev(305, "NoDidDocumentProvidedForKidAsDid", json!({})),
        E::UnableToTransformIntoDid { kid, .. } => ev(306, "UnableToTransformIntoDid", json!({ "kid": kid })),
        E::UnableToResolveDidInDidDocument { did, .. } => ev(307, "UnableToResolveDidInDidDocument", json!({ "did": did })),
        E::UnableToMapVerificationMethodToJwk { .. } => ev(308, "UnableToMapVerificationMethodToJwk", json!({})),
        E::UnableToTransformIntoJoseItem { .. } => ev(309, "UnableToTransformIntoJoseItem", json!({})),
        E::UnsupportedAlgorithm { algorithm } => ev(310, "UnsupportedAlgorithm", json!({ "algorithm": algorithm })),
        E::EdDSAHasNoXCoordinate => ev(311, "EdDSAHasNoXCoordinate", json!({})),
        E::ESXXXHasNoXOrYCoordinate { .. } => ev(312, "ESXXXHasNoXOrYCoordinate", json!({})),
        E::SignatureNotInJwt { .. } => ev(313, "SignatureNotInJwt", json!({})),
        E::UnsupportedKeyTypeInJwtHeader { key_name, key_type } => {
            ev(314, "UnsupportedKeyTypeInJwtHeader", json!({"key_name": key_name, "key_type": key_type}))
        }
        E::NonceMismatch { expected_nonce, actual_nonce } => {
            ev(315, "NonceMismatch", json!({"expected_nonce": expected_nonce, "actual_nonce": actual_nonce}))
        }
        E::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt } => {
            ev(316, "AudienceMismatch", json!({"expected_aud_in_jwt": expected_aud_in_jwt, "actual_aud_in_jwt": actual_aud_in_jwt}))
        }
        _ => ev(0, "?", json!({})),
    }
}

pub fn view_ci(e: &CredentialIssuerError) -> ErrView {
    use CredentialIssuerError as E;
    #[allow(unreachable_patterns)]
    match e {
        E::ValidationError(v) => ErrView { code: 100, name: "ValidationError", fields: json!({}), inner: vec![view_validation(v)] },
        E::JwtError(v) => ErrView { code: 101, name: "JwtError", fields: json!({}), inner: vec![view_jwt(v)] },
        E::AuthorizedFlowNotSupported => ev(102, "AuthorizedFlowNotSupported", json!({})),
        E::CredentialIdNotInIssuerMetadata { id } => ev(103, "CredentialIdNotInIssuerMetadata", json!({ "id": id })),
        E::InvalidCredentialOfferEncoding { .. } => ev(104, "InvalidCredentialOfferEncoding", json!({})),
        E::InvalidRequestedCredential { .. } => ev(105, "InvalidRequestedCredential", json!({})),
        E::ExpiredCNonce { now, expires_in } => {
            ev(106, "ExpiredCNonce", json!({"now": t(now), "expiry_timestamp": expires_in.as_ref().map(t)}))
        }
        E::CredentialAndAcceptanceTokenSupplied => ev(107, "CredentialAndAcceptanceTokenSupplied", json!({})),
        E::AuthorizationServerMetadataNotSupported => ev(108, "AuthorizationServerMetadataNotSupported", json!({})),
        E::CredentialOfferMustBeSupplied => ev(109, "CredentialOfferMustBeSupplied", json!({})),
        E::EvaluteCredentialRequestOptionsNotSupplied { .. } => ev(110, "EvaluteCredentialRequestOptionsNotSupplied", json!({})),
        E::CNonceIsExpired { now, expiry_timestamp } => {
            ev(111, "CNonceIsExpired", json!({"now": t(now), "expiry_timestamp": t(expiry_timestamp)}))
        }
        E::NoProofInCredentialRequest => ev(112, "NoProofInCredentialRequest", json!({})),
        _ => ev(0, "?", json!({})),
    }
}

pub fn view_at(e: &AccessTokenError) -> ErrView {
    use AccessTokenError as E;
    #[allow(unreachable_patterns)]
    match e {
        E::ValidationError(v) => ErrView { code: 400, name: "ValidationError", fields: json!({}), inner: vec![view_validation(v)] },
        E::InvalidGrantType { requested_grant_type, accepted_grant_type } => {
            ev(401, "InvalidGrantType", json!({"requested_grant_type": requested_grant_type, "accepted_grant_type": accepted_grant_type}))
        }
        E::AuthorizedFlowNotSupported => ev(402, "AuthorizedFlowNotSupported", json!({})),
        E::NoFlowSupportedInCredentialOffer => ev(403, "NoFlowSupportedInCredentialOffer", json!({})),
        E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => ev(
            404,
            "InvalidPreAuthorizedCodeFlowValues",
            json!({"should_pin_be_supplied": should_pin_be_supplied, "does_code_match": does_code_match}),
        ),
        E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => ErrView {
            code: 405,
            name: "InvalidAuthorizedAndPreAuthorizedCodeFlow",
            fields: json!({}),
            inner: vec![view_at(authorized_error), view_at(pre_authorized_error)],
        },
        E::OptionsAreRequiredForEvaluation { .. } => ev(406, "OptionsAreRequiredForEvaluation", json!({})),
        E::UserPinMismatch => ev(407, "UserPinMismatch", json!({})),
        E::CredentialOfferMustBeSupplied => ev(409, "CredentialOfferMustBeSupplied", json!({})),
        _ => ev(0, "?", json!({})),
    }
}

pub fn alg_name(a: &ProofJwtAlgorithm) -> &'static str {
    use ProofJwtAlgorithm as A;
    #[allow(unreachable_patterns)]
    match a {
        A::HS256 => "HS256",
        A::HS384 => "HS384",
        A::HS512 => "HS512",
        A::RS256 => "RS256",
        A::RS384 => "RS384",
        A::RS512 => "RS512",
        A::ES256 => "ES256",
        A::ES384 => "ES384",
        A::ES512 => "ES512",
        A::PS256 => "PS256",
        A::PS384 => "PS384",
        A::PS512 => "PS512",
        A::EdDSA => "EdDSA",
        A::ES256K => "ES256K",
        A::ECDHES => "ECDH-ES",
        A::None => "none",
        _ => "?",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Approved {
    pub algorithm: String,
    pub public_key: Vec<u8>,
    pub message: Vec<u8>,
    pub signature: Vec<u8>,
    pub has_pop: bool,
    pub subject: Option<String>,
    pub credential: Value,
    /// the whole response as serialized
    pub wire: Value,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome<T> {
    Ok(T),
    Err(ErrView),
    Panic(String),
    /// an input document could not be read (which one, why)
    Unreadable(&'static str, String),
}

impl<T: std::fmt::Debug> Outcome<T> {
    pub fn json(&self) -> Value {
        match self {
            Outcome::Ok(v) => json!({ "approved": format!("{v:?}") }),
            Outcome::Err(e) => json!({ "rejected": e.json() }),
            Outcome::Panic(p) => json!({ "panicked": p }),
            Outcome::Unreadable(w, m) => json!({ "unreadable": w, "why": m }),
        }
    }
}

pub fn read<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    // through text, as an FFI or HTTP consumer does
    guarded(|| serde_json::from_str::<T>(&v.to_string()).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panicked: {p}")))
}

pub struct EvalInputs {
    pub meta: CredentialIssuerMetadata,
    pub request: CredentialRequest,
    pub offer: Option<CredentialOffer>,
    pub as_meta: Option<AuthorizationServerMetadata>,
    pub doc: Option<Document>,
    pub opts: Option<EvaluateCredentialRequestOptions>,
}

pub fn read_eval(
    meta: &Value,
    request: &Value,
    offer: Option<&Value>,
    as_meta: bool,
    doc: Option<&Value>,
    opts: Option<&Value>,
) -> Result<EvalInputs, (&'static str, String)> {
    Ok(EvalInputs {
        meta: read(meta).map_err(|e| ("issuer metadata", e))?,
        request: read(request).map_err(|e| ("credential request", e))?,
        offer: offer.map(read).transpose().map_err(|e| ("credential offer", e))?,
        as_meta: if as_meta { Some(AuthorizationServerMetadata {}) } else { None },
        doc: doc.map(read).transpose().map_err(|e| ("did document", e))?,
        opts: opts.map(read).transpose().map_err(|e| ("options", e))?,
    })
}

pub fn approved(r: &CredentialIssuerEvaluateRequestResponse) -> Approved {
    let pop = r.proof_of_possession.as_ref();
    Approved {
        algorithm: pop.map_or("", |p| alg_name(&p.algorithm)).to_owned(),
        public_key: pop.map(|p| p.public_key.clone()).unwrap_or_default(),
        message: pop.map(|p| p.message.clone()).unwrap_or_default(),
        signature: pop.map(|p| p.signature.clone()).unwrap_or_default(),
        has_pop: pop.is_some(),
        subject: r.subject_id.clone(),
        credential: serde_json::to_value(&r.credential).unwrap_or(Value::Null),
        wire: serde_json::to_value(r).unwrap_or(Value::Null),
    }
}

pub fn evaluate(i: &EvalInputs) -> Outcome<Approved> {
    match guarded(|| {
        CredentialIssuer::evaluate_credential_request(
            &i.meta,
            &i.request,
            i.offer.as_ref(),
            i.as_meta.as_ref(),
            i.doc.as_ref(),
            i.opts.clone(),
        )
        .map(|r| approved(&r))
        .map_err(|e| view_ci(&e))
    }) {
        Ok(Ok(r)) => Outcome::Ok(r),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}

pub fn pre_evaluate(req: &CredentialRequest) -> Outcome<Option<String>> {
    match guarded(|| CredentialIssuer::pre_evaluate_credential_request(req).map(|r| r.did).map_err(|e| view_ci(&e))) {
        Ok(Ok(r)) => Outcome::Ok(r),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}

pub fn token_request(code: Option<&str>, pin: Option<u64>) -> Result<AccessTokenRequest, String> {
    let v = match code {
        None => json!({"grant_type": {"grant_type": "authorization_code"}}),
        Some(c) => {
            let mut g = json!({"grant_type": crate::gen::PRE, "pre_authorized_code": c});
            if let Some(p) = pin {
                g["user_pin"] = json!(p);
            }
            json!({ "grant_type": g })
        }
    };
    read(&v)
}

/// `opts`: 0 no options, 1 options without PIN (or with `pin`)
pub fn token_opts(present: bool, pin: Option<u64>) -> Result<Option<EvaluateAccessTokenRequestOptions>, String> {
    if !present {
        return Ok(None);
    }
    read(&json!({ "expected_user_pin": pin })).map(Some)
}

pub fn evaluate_token(
    req: &AccessTokenRequest,
    offer: Option<CredentialOffer>,
    opts: Option<EvaluateAccessTokenRequestOptions>,
) -> Outcome<()> {
    match guarded(|| AccessToken::evaluate_access_token_request(req, offer, opts).map_err(|e| view_at(&e))) {
        Ok(Ok(())) => Outcome::Ok(()),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}
