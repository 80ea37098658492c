//! Library values built field by field from generated JSON (without the library's parser), so that
//! what the parser and serializer do can be compared with an independent construction.
use crate::gen::PRE;
use crate::oracle;
use chrono::{DateTime, Utc};
use openid4vci::access_token::GrantType;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialOffer, CredentialOfferGrants, CredentialOrId, CredentialOrIds,
    EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::types::credential::{CredentialFormatProfile, CredentialSubject, CredentialSubjectDisplay, LinkedDataContext};
use openid4vci::types::credential_issuer_metadata::{
    CredentialIssuerMetadata, CredentialSupported, DisplayLogo, DisplayProperties,
};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use serde_json::Value;
use std::collections::HashMap;

fn s(v: &Value) -> Option<String> {
    v.as_str().map(str::to_owned)
}

fn list(v: &Value) -> Option<Vec<String>> {
    v.as_array().map(|a| a.iter().map(|x| s(x).unwrap_or_default()).collect())
}

fn u32o(v: &Value) -> Option<u32> {
    v.as_u64().and_then(|n| u32::try_from(n).ok())
}

pub fn subjects(v: &Value) -> Option<HashMap<String, CredentialSubject>> {
    v.as_object().map(|o| {
        o.iter()
            .map(|(k, v)| {
                (
                    k.clone(),
                    CredentialSubject {
                        mandatory: v["mandatory"].as_bool(),
                        value_type: s(&v["value_type"]),
                        display: v["display"].as_array().map(|a| {
                            a.iter().map(|d| CredentialSubjectDisplay { name: s(&d["name"]), locale: s(&d["locale"]) }).collect()
                        }),
                    },
                )
            })
            .collect()
    })
}

pub fn profile(v: &Value) -> CredentialFormatProfile {
    let types = list(&v["types"]).unwrap_or_default();
    let order = list(&v["order"]);
    match v["format"].as_str().unwrap_or("") {
        "jwt_vc_json" => CredentialFormatProfile::JwtVcJson { types, credential_subject: subjects(&v["credentialSubject"]), order },
        "jwt_vc_json-ld" => CredentialFormatProfile::JwtVcJsonLd { types, credential_subject: subjects(&v["credentialSubject"]), order },
        "ldp_vc" => CredentialFormatProfile::LdpVc {
            context: v["@context"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|c| match c {
                    Value::String(s) => LinkedDataContext::String(s.clone()),
                    Value::Object(o) => LinkedDataContext::Map(o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
                    _ => LinkedDataContext::String(String::new()),
                })
                .collect(),
            types,
            credential_subject: subjects(&v["credentialSubject"]),
            order,
        },
        _ => CredentialFormatProfile::MsoMdoc { doctype: s(&v["doctype"]).unwrap_or_default(), claims: subjects(&v["claims"]), order },
    }
}

fn display(v: &Value) -> DisplayProperties {
    DisplayProperties {
        name: s(&v["name"]).unwrap_or_default(),
        locale: s(&v["locale"]),
        logo: v["logo"].as_object().map(|_| DisplayLogo { url: s(&v["logo"]["url"]), alt_text: s(&v["logo"]["alt_text"]) }),
        description: s(&v["description"]),
        background_color: s(&v["background_color"]),
        text_color: s(&v["text_color"]),
    }
}

pub fn supported(v: &Value) -> CredentialSupported {
    CredentialSupported {
        format: profile(v),
        id: s(&v["id"]),
        cryptographic_binding_mehtods_supported: list(&v["cryptographic_binding_methods_supported"]),
        cryptographic_suites_supported: list(&v["cryptographic_suites_supported"]),
        display: v["display"].as_array().map(|a| a.iter().map(display).collect()),
    }
}

pub fn metadata(v: &Value) -> CredentialIssuerMetadata {
    const KNOWN: &[&str] = &["credential_issuer", "authorization_server", "credential_endpoint", "batch_credential_endpoint", "credentials_supported"];
    let extra: HashMap<String, Value> = v
        .as_object()
        .into_iter()
        .flatten()
        .filter(|(k, _)| !KNOWN.contains(&k.as_str()))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect();
    CredentialIssuerMetadata {
        credential_issuer: s(&v["credential_issuer"]).unwrap_or_default(),
        authorization_server: s(&v["authorization_server"]),
        credential_endpoint: s(&v["credential_endpoint"]).unwrap_or_default(),
        batch_credential_endpoint: s(&v["batch_credential_endpoint"]),
        credentials_supported: v["credentials_supported"].as_array().into_iter().flatten().map(supported).collect(),
        additional_fields: Some(extra),
    }
}

pub fn auth_flow(v: &Value) -> Option<AuthorizedCodeFlow> {
    v.as_object().map(|_| AuthorizedCodeFlow { issuer_state: s(&v["issuer_state"]) })
}

pub fn pre_flow(v: &Value) -> Option<PreAuthorizedCodeFlow> {
    v.as_object().map(|_| PreAuthorizedCodeFlow {
        code: s(&v["pre-authorized_code"]).unwrap_or_default(),
        user_pin_required: v["user_pin_required"].as_bool(),
    })
}

pub fn grants(v: &Value) -> CredentialOfferGrants {
    CredentialOfferGrants { authorized_code_flow: auth_flow(&v["authorization_code"]), pre_authorized_code_flow: pre_flow(&v[PRE]) }
}

pub fn credential_or_id(v: &Value) -> CredentialOrId {
    match v {
        Value::String(s) => CredentialOrId::CredentialId(s.clone()),
        _ => CredentialOrId::Credential(profile(v)),
    }
}

pub fn credential_or_ids(v: &Value) -> CredentialOrIds {
    CredentialOrIds::new(v.as_array().into_iter().flatten().map(credential_or_id).collect())
}

pub fn offer(v: &Value) -> CredentialOffer {
    CredentialOffer {
        credential_issuer: s(&v["credential_issuer"]).unwrap_or_default(),
        credentials: credential_or_ids(&v["credentials"]),
        grants: grants(&v["grants"]),
    }
}

pub fn request(v: &Value) -> CredentialRequest {
    CredentialRequest {
        format: profile(v),
        proof: v["proof"].as_object().map(|p| CredentialRequestProof {
            proof_type: p.get("proof_type").and_then(s).unwrap_or_else(|| "JWT".into()),
            jwt: s(&v["proof"]["jwt"]).unwrap_or_default(),
        }),
    }
}

pub fn grant_type(v: &Value) -> GrantType {
    match v["grant_type"].as_str() {
        Some("authorization_code") => GrantType::AuthorizedCodeFlow,
        _ => GrantType::PreAuthorizedCodeFlow {
            pre_authorized_code: s(&v["pre_authorized_code"]).unwrap_or_default(),
            user_pin: v["user_pin"].as_u64(),
        },
    }
}

pub fn instant(v: &Value) -> DateTime<Utc> {
    oracle::instant(v).and_then(|i| crate::gen::dt(i.ns)).unwrap_or_default()
}

pub fn c_nonce(v: &Value) -> CNonce {
    CNonce { c_nonce: s(&v["c_nonce"]).unwrap_or_default(), c_nonce_expires_in: u32o(&v["c_nonce_expires_in"]) }
}

pub fn nonce_options(v: &Value) -> CNonceOptions {
    CNonceOptions {
        c_nonce_expires_in: u32o(&v["c_nonce_expires_in"]).unwrap_or_default(),
        expected_c_nonce: s(&v["expected_c_nonce"]).unwrap_or_default(),
        c_nonce_created_at: instant(&v["c_nonce_created_at"]),
    }
}

pub fn options(v: &Value) -> EvaluateCredentialRequestOptions {
    EvaluateCredentialRequestOptions {
        c_nonce: v["c_nonce"].as_object().map(|_| nonce_options(&v["c_nonce"])),
        client_id: s(&v["client_id"]),
    }
}
