//! The form of proofs: C06 (which are accepted) and C29 (what is read from them).
use crate::api::{self, Outcome};
use crate::clock;
use crate::core::{guarded, Ctx, Rng};
use crate::evalx::{self, analysis_of, jwk_value, set_clock, witness, x5c_value};
use crate::gen::*;
use crate::oracle::{self, Cond, ProofView};
use crate::Def;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader};
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C06",
            quick: 400_000,
            thorough: 2_000_000,
            case: case_c06,
            extra: Some(enumerate_c06),
            required: &[
                "well-formed", "malformed", "pre-evaluation: accepted", "pre-evaluation: rejected", "evaluation: accepted", "evaluation: rejected",
                "success response: accepted", "success response: rejected", "alg none", "alg HMAC", "four parts", "one part", "padding",
                "standard alphabet", "two key members", "key member of wrong type", "proof type", "typ", "body not an object", "member missing",
                "member of wrong type", "object jwk", "array x5c", "two parts accepted", "not UTF-8", "not JSON",
            ],
            rule: "one case = a credential request whose proof is well-formed or deviates in 1-3 places of its form (string level, part level or member level), put to pre-evaluation, evaluation, success-response creation, request validation and proof parsing; each verdict is compared with an independent reading of the token; non-trivial = distinct token and proof type",
        },
        Def {
            id: "C29",
            quick: 400_000,
            thorough: 2_000_000,
            case: case_c29,
            extra: None,
            required: &[
                "parsed", "kid", "jwk as text", "jwk as object", "x5c as text", "x5c as array", "no key reference", "no signature", "empty signature", "iss absent",
                "iss null", "nbf present", "exp present", "NumericDate", "check_nonce accepts", "check_nonce refuses", "check_iss accepts",
                "check_iss refuses", "check_aud accepts", "check_aud refuses", "extract_did gives a DID", "extract_did gives none", "extract_did refuses",
            ],
            rule: "one case = a proof token with random members, whitespace, member order, Unicode and instants, parsed by the library and compared member by member with an independent reading; the stand-alone checks run on the exact and on nearly equal values; non-trivial = distinct token",
        },
    ]
}

// ------------------------------------------------------------------ mutation of the form

fn reencode(r: &mut Rng, s: &mut Scn, which: usize, bytes: Vec<u8>) {
    let jwt = s.jwt().unwrap_or_default();
    let mut parts: Vec<String> = jwt.split('.').map(str::to_owned).collect();
    if which < parts.len() {
        parts[which] = b64(bytes);
    }
    let _ = r;
    s.raw = Some(parts.join("."));
}

fn part_bytes(s: &Scn, which: usize) -> Vec<u8> {
    let jwt = s.jwt().unwrap_or_default();
    let p = jwt.split('.').nth(which).unwrap_or("").to_owned();
    base64::Engine::decode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, p).unwrap_or_default()
}

/// Change the form of the scenario's proof: often to something malformed, sometimes to something
/// unusual but well-formed.
pub fn break_form(r: &mut Rng, s: &mut Scn) {
    let Some(_) = s.jwt() else { return };
    // member-level changes need the structured proof
    let structured = s.raw.is_none() && s.proof.is_some();
    let n = r.below(if structured { 30 } else { 14 });
    match n {
        // ---------------- string level
        0 => {
            let j = s.jwt().unwrap();
            let more = match r.below(4) {
                0 => format!("{j}."),
                1 => format!("{j}.{}", signature(r)),
                2 => format!("{j}..{}", signature(r)),
                _ => format!("{j}.e30.e30"),
            };
            let parts = more.split('.').count();
            s.raw = Some(more);
            s.tag(if parts > 3 { "four parts" } else { "three parts" });
        }
        1 => {
            let j = s.jwt().unwrap();
            let parts: Vec<&str> = j.split('.').collect();
            if parts.len() < 2 {
                return;
            }
            let new = match r.below(6) {
                0 => parts[0].to_owned(),
                1 => String::new(),
                2 => ".".to_owned(),
                3 => j.replace('.', ","),
                4 => format!("{}{}", parts[0], parts[1]),
                _ => "..".to_owned(),
            };
            s.tag(if new.contains('.') { "empty parts" } else { "one part" });
            s.raw = Some(new);
        }
        2 => {
            // drop or empty the signature: still well-formed
            let j = s.jwt().unwrap();
            let parts: Vec<&str> = j.split('.').collect();
            let new = format!("{}.{}{}", parts[0], parts.get(1).unwrap_or(&""), if r.flip() { "." } else { "" });
            s.raw = Some(new);
            s.tag("no signature");
        }
        3 => {
            let j = s.jwt().unwrap();
            let mut parts: Vec<String> = j.split('.').map(str::to_owned).collect();
            let i = r.below(2.min(parts.len()));
            let pad = match parts[i].len() % 4 {
                2 => "==",
                3 => "=",
                _ => "====",
            };
            parts[i] += if r.one_in(3) { "=" } else { pad };
            s.raw = Some(parts.join("."));
            s.tag("padding");
        }
        4 => {
            // base64 characters outside the URL-safe alphabet
            let j = s.jwt().unwrap();
            let mut parts: Vec<String> = j.split('.').map(str::to_owned).collect();
            let i = r.below(2.min(parts.len()));
            match r.below(3) {
                0 => {
                    let bytes = part_bytes(s, i);
                    // force a byte sequence that needs '+' or '/' in the standard alphabet
                    let text = String::from_utf8_lossy(&bytes).into_owned();
                    let with = match text.strip_prefix('{') {
                        Some(t) => format!("{{\"~~~???>>>\":\"???~~~>>>\"{}{t}", if t.trim_start().starts_with('}') { "" } else { "," }),
                        None => text,
                    };
                    parts[i] = base64::Engine::encode(&base64::engine::general_purpose::STANDARD_NO_PAD, with);
                    s.tag("standard alphabet");
                }
                1 => {
                    let at = r.below(parts[i].len() + 1);
                    let c = *r.pick(&[" ", "\n", "\t", "\r\n", "+", "/", "=", "%", "é", "\0", "*", ","]);
                    if parts[i].is_char_boundary(at) {
                        parts[i].insert_str(at, c);
                    }
                    s.tag("foreign character");
                }
                _ => {
                    let k = r.below(parts[i].len() + 1);
                    parts[i].truncate(k);
                    s.tag("truncated part");
                }
            }
            s.raw = Some(parts.join("."));
        }
        5 => {
            let j = s.jwt().unwrap();
            let new = match r.below(4) {
                0 => format!(" {j}"),
                1 => format!("{j}\n"),
                2 => format!("Bearer {j}"),
                _ => format!("\"{j}\""),
            };
            s.raw = Some(new);
            s.tag("wrapped token");
        }
        6 => {
            let i = r.below(2);
            let mut b = part_bytes(s, i);
            if b.is_empty() {
                return;
            }
            // inside a string value, mostly
            let at = r.below(b.len());
            match r.below(3) {
                0 => b.insert(at, 0xff),
                1 => {
                    let q = b.iter().rposition(|c| *c == b'"').unwrap_or(at);
                    b.splice(q..q, [0xc3, 0x28]);
                }
                _ => b.insert(at, 0x80),
            }
            reencode(r, s, i, b);
            s.tag("not UTF-8");
        }
        7 => {
            let i = r.below(2);
            let mut b = part_bytes(s, i);
            match r.below(8) {
                0 => b.push(b'}'),
                1 => b.extend(b" {}"),
                2 => {
                    b.pop();
                }
                3 => b = vec![],
                4 => b = text(r).into_bytes(),
                5 => b = b.iter().map(|c| if *c == b'"' { b'\'' } else { *c }).collect(),
                6 => {
                    b.pop();
                    b.extend(b",}");
                }
                _ => b.extend(b"\0"),
            }
            reencode(r, s, i, b);
            s.tag("not JSON");
        }
        8 => {
            // well-formed JSON, not an object
            let i = r.below(2);
            let b = part_bytes(s, i);
            let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
            let new = match r.below(7) {
                0 => {
                    // the members as an array, in declaration order
                    let names: &[&str] = if i == 0 { &["typ", "alg", "kid"] } else { &["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"] };
                    Value::Array(names.iter().map(|n| v.get(*n).cloned().unwrap_or(Value::Null)).collect())
                }
                1 => json!([v]),
                2 => Value::Null,
                3 => json!(v.to_string()),
                4 => json!(42),
                5 => json!(true),
                _ => json!([]),
            };
            reencode(r, s, i, new.to_string().into_bytes());
            s.tag(if i == 0 { "header not an object" } else { "body not an object" });
        }
        9 => {
            // harmless: whitespace around the JSON
            let i = r.below(2);
            let mut b = b" \n\t\r".to_vec();
            b.extend(part_bytes(s, i));
            b.extend(b"\n \t");
            reencode(r, s, i, b);
            s.tag("whitespace");
        }
        10 | 11 => {
            let t = match r.below(10) {
                0 => json!("cwt"),
                1 => json!("jwt "),
                2 => json!(" jwt"),
                3 => json!(""),
                4 => json!("jws"),
                5 => json!("ldp_vp"),
                6 => r.pick(&[json!(null), json!(1), json!(true), json!(["jwt"]), json!({"jwt": 1})]).clone(),
                7 => json!(near(r, "jwt").0),
                8 => json!(near(r, "JWT").0),
                _ => json!(casing(r, "jwt")),
            };
            s.proof_type = Some(t);
            s.tag("proof type");
        }
        12 => {
            s.proof_type = None;
            s.tag("proof type defaulted");
        }
        13 => {
            let j = s.jwt().unwrap();
            let parts: Vec<&str> = j.split('.').collect();
            if parts.len() >= 2 {
                let mut p: Vec<String> = parts.iter().map(|x| (*x).to_owned()).collect();
                p.swap(0, 1);
                s.raw = Some(p.join("."));
            }
            s.tag("parts swapped");
        }
        // ---------------- member level
        14 | 15 => {
            let p = s.proof.as_mut().unwrap();
            let alg = match r.below(8) {
                0 | 1 => (json!("none"), "alg none"),
                2 | 3 => (json!(*r.pick(&["HS256", "HS384", "HS512"])), "alg HMAC"),
                4 => (json!(*r.pick(ALGS_OK)), "alg allowed"),
                5 => {
                    let a = *r.pick(&["None", "NONE", "nOnE", "hs256", "Hs512", "es256", "eddsa", "EDDSA", "Es256k", "ecdh-es", "ECDHES"]);
                    (json!(a), "alg casing")
                }
                6 => {
                    let a = *r.pick(&["ES256", "EdDSA", "none", "HS256"]);
                    (json!(near(r, a).0), "alg near")
                }
                _ => (r.pick(&[json!(null), json!(1), json!(["EdDSA"]), json!({"EdDSA": null}), json!("A128KW"), json!("dir"), json!("RSA-OAEP"), json!(""), json!("ES256K-R"), json!("Ed25519"), json!("Ed448"), json!("ECDH-ES+A128KW"),
                    json!("ECDH"), json!("ESKeccakK"), json!("ESBlake2b"), json!("EdBlake2b"), json!("ES256-R"), json!("RS1"), json!("HS1"), json!("HS256/64"), json!("PBES2-HS256+A128KW"),
                    json!("A128GCM"), json!("SHA256"), json!("RSASSA-PSS"), json!("ECDSA"), json!("secp256k1"), json!("RSA1_5"), json!("ML-DSA-44"), json!("-8")]).clone(), "alg foreign"),
            };
            p.set_header("alg", alg.0);
            s.tag(alg.1);
        }
        16 | 17 => {
            let p = s.proof.as_mut().unwrap();
            let t = match r.below(6) {
                0 => json!(near(r, "openid4vci-proof+jwt").0),
                1 => json!("JWT"),
                2 => json!("jwt"),
                3 => json!(*r.pick(&["openid4vci-proof+cwt", "openid4vci-proof", "proof+jwt", "openid4vci-proof+jwt;v=1", "application/openid4vci-proof+jwt", "openid4vci-proof jwt", "openid4vp-proof+jwt", ""])),
                4 => r.pick(&[json!(null), json!(7), json!(["openid4vci-proof+jwt"]), json!({})]).clone(),
                _ => json!(casing(r, "openid4vci-proof+jwt")),
            };
            p.set_header("typ", t);
            s.tag("typ");
        }
        18 => {
            let p = s.proof.as_mut().unwrap();
            if r.flip() {
                let (k, also) = *r.pick(&[("typ", "type"), ("typ", "ctyp"), ("typ", "Typ"), ("alg", "algorithm"), ("alg", "Alg"), ("alg", "algo")]);
                let old = p.header.iter().find(|(n, _)| n == k).map_or(Value::Null, |(_, v)| v.clone());
                p.unset_header(k);
                if r.flip() {
                    p.set_header(&k.to_uppercase(), json!("EdDSA"));
                } else if r.flip() {
                    p.set_header(also, old);
                }
            } else {
                let (k, also) = *r.pick(&[
                    ("aud", "audience"), ("aud", "Aud"), ("aud", "credential_issuer"), ("aud", "htu"), ("iat", "issued_at"), ("iat", "issuedAt"), ("iat", "auth_time"),
                    ("nonce", "c_nonce"), ("nonce", "cNonce"), ("nonce", "challenge"), ("nonce", "jti"),
                ]);
                let old = p.body.iter().find(|(n, _)| n == k).map_or(Value::Null, |(_, v)| v.clone());
                p.unset_body(k);
                if r.flip() {
                    p.set_body(&k.to_uppercase(), json!("x"));
                } else if r.flip() {
                    p.set_body(also, old);
                }
            }
            s.tag("member missing");
        }
        19 | 20 => {
            let p = s.proof.as_mut().unwrap();
            let k = *r.pick(&["aud", "nonce", "iss", "sub", "iat", "nbf", "exp"]);
            let v = match r.below(10) {
                0 => json!(null),
                1 => json!(r.range(-5, 5)),
                2 => json!(true),
                3 => json!(["https://issuer.example.com"]),
                4 => json!({"0": "x"}),
                5 => json!(1.5),
                6 => json!(u64::MAX),
                7 => json!(i64::MIN),
                8 => json!(""),
                _ => json!(*r.pick(&[
                    "2023-01-01", "2023-13-01T00:00:00Z", "2023-02-30T00:00:00Z", "2023-01-01T24:00:00Z", "2023-01-01T00:00:00", "20230101T000000Z",
                    "1700000000", "Sun, 06 Nov 1994 08:49:37 GMT", "now", "2023-01-01T00:00:00+25:00"
                ])),
            };
            p.set_body(k, v);
            s.tag("member of wrong type");
        }
        21 => {
            // two or three of kid, jwk, x5c
            let (j, x) = (jwk_value(r), x5c_value(r));
            let text = r.flip();
            let f = |v: Value| if text { json!(v.to_string()) } else { v };
            let p = s.proof.as_mut().unwrap();
            match r.below(4) {
                0 => p.set_header("jwk", f(j)),
                1 => p.set_header("x5c", f(x)),
                2 => {
                    p.unset_header("kid");
                    p.set_header("jwk", f(j));
                    p.set_header("x5c", f(x));
                }
                _ => {
                    p.set_header("x5c", f(x));
                    p.set_header("jwk", f(j));
                }
            }
            if r.flip() {
                r.shuffle(&mut s.proof.as_mut().unwrap().header);
            }
            s.tag("two key members");
        }
        22 => {
            let p = s.proof.as_mut().unwrap();
            let v = r.pick(&[json!(1), json!(true), json!(["did:example:1#k"]), json!({"id": "did:example:1#k"}), json!(1.25), json!([])]).clone();
            let k = *r.pick(&["kid", "jwk", "x5c"]);
            p.unset_header("kid");
            p.set_header(k, v);
            s.tag("key member of wrong type");
        }
        23 | 24 => {
            // one of jwk or x5c, in either form: well-formed
            let (k, v) = if r.flip() { ("jwk", jwk_value(r)) } else { ("x5c", x5c_value(r)) };
            let as_text = r.flip();
            let p = s.proof.as_mut().unwrap();
            p.unset_header("kid");
            p.set_header(k, if as_text { json!(v.to_string()) } else { v });
            s.tag(match (k, as_text) {
                ("jwk", false) => "object jwk",
                ("x5c", false) => "array x5c",
                _ => "key as text",
            });
        }
        25 => {
            let p = s.proof.as_mut().unwrap();
            let v = if r.flip() { json!("x") } else { jwk_value(r) };
            let k = *r.pick(&["jwk", "x5c"]);
            p.unset_header("kid");
            p.set_header(k, v);
            s.tag("odd key value");
        }
        26 => {
            // look-alike member names are other members
            let p = s.proof.as_mut().unwrap();
            let k = *r.pick(&["KID", "Jwk", "x5C", "kid ", "x5t", "jwks", "x5c\0"]);
            p.set_header(k, json!("x"));
            s.tag("look-alike member");
        }
        27 => {
            let p = s.proof.as_mut().unwrap();
            for _ in 0..1 + r.below(12) {
                let (k, v) = (token(r, 5), any_json(r, 3));
                if r.flip() {
                    p.set_header(&k, v);
                } else {
                    p.set_body(&k, v);
                }
            }
            s.tag("extra members");
        }
        28 => {
            let p = s.proof.as_mut().unwrap();
            p.style = *r.pick(&[0, 1, 2]);
            r.shuffle(&mut p.header);
            r.shuffle(&mut p.body);
            s.tag("rendering");
        }
        _ => {
            let p = s.proof.as_mut().unwrap();
            let k = *r.pick(&["iss", "sub", "nbf", "exp"]);
            p.set_body(k, Value::Null);
            s.tag("null optional member");
        }
    }
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Accepted,
    Form,
    Other(u32),
}

fn verdict<T>(e: Result<T, api::ErrView>) -> Verdict {
    match e {
        Ok(_) => Verdict::Accepted,
        Err(e) if e.leaf().code == 1 => Verdict::Form,
        Err(e) => Verdict::Other(e.leaf().code),
    }
}

fn case_c06(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = honest(r);
    match r.below(10) {
        0 => {}
        1..=7 => break_form(r, &mut s),
        8 => {
            break_form(r, &mut s);
            break_form(r, &mut s);
        }
        _ => {
            let c = *r.pick(evalx::ALL);
            evalx::mutate(r, &mut s, c);
            break_form(r, &mut s);
        }
    }
    decide_c06(ctx, &s);
}

fn decide_c06(ctx: &mut Ctx, s: &Scn) {
    let a = analysis_of(s);
    if s.jwt().is_none() {
        return;
    }
    for t in &s.tags {
        ctx.class(t);
    }
    let request = s.request();
    let jwt = s.jwt().unwrap();
    ctx.decided(&(&jwt, request["proof"]["proof_type"].to_string()), true);
    if !a.unspecified.is_empty() {
        ctx.class("unspecified");
        // the remaining conditions still have to be met
        return;
    }
    let bad = a.violated.contains(&Cond::Form);
    ctx.class(if bad { "malformed" } else { "well-formed" });
    ctx.sample(|| json!({"request": request, "tags": s.tags, "malformed": bad, "why": a.proof.as_ref().map(|p| p.form.clone())}));
    let token_bad = a.proof.as_ref().map_or(true, |p| !p.form.is_empty());

    // the token on its own (proof type does not matter there)
    let got = ctx.lib("ProofJwt::from_str and validate", || witness(s, &a, Value::Null), || {
        jwt.parse::<ProofJwt>().map_err(|e| e.to_string()).and_then(|j| j.validate().map_err(|e| e.to_string()))
    });
    if let Some(g) = got {
        ctx.check(
            g.is_ok() != token_bad,
            || format!("a proof {} by parsing and validation: {g:?}", if token_bad { "with a malformed token is accepted" } else { "with a well-formed token is refused" }),
            || witness(s, &a, Value::Null),
        );
    }

    let req: CredentialRequest = match api::read(&request) {
        Ok(q) => q,
        Err(m) => {
            ctx.class("unreadable credential request");
            ctx.check(bad, || format!("a credential request with a well-formed proof cannot be read: {m}"), || witness(s, &a, Value::Null));
            return;
        }
    };
    let key_ok = !a.violated.contains(&Cond::KidNotDid) && !a.violated.contains(&Cond::KeyKind);
    let ops: [(&str, fn(&CredentialRequest) -> Verdict); 3] = [
        ("pre-evaluation", |q| verdict(CredentialIssuer::pre_evaluate_credential_request(q).map_err(|e| api::view_ci(&e)))),
        ("success response", |q| verdict(CredentialIssuer::create_credential_success_response(q, None, None).map_err(|e| api::view_ci(&e)))),
        ("request validation", |q| verdict(q.validate().map_err(|e| api::view_validation(&e)))),
    ];
    for (name, op) in ops {
        let Some(v) = ctx.lib(name, || witness(s, &a, Value::Null), || op(&req)) else { continue };
        ctx.class(&format!("{name}: {}", if v == Verdict::Accepted { "accepted" } else { "rejected" }));
        let ok = match v {
            Verdict::Accepted => !bad,
            Verdict::Form => bad,
            Verdict::Other(_) => bad || (name == "pre-evaluation" && !key_ok),
        };
        if v == Verdict::Accepted && a.unsigned {
            ctx.class("two parts accepted");
        }
        ctx.check(ok, || format!("{name} of a request whose proof is {}: {v:?} ({})", if bad { "malformed" } else { "well-formed" }, s.tags.join(", ")), || witness(s, &a, Value::Null));
    }
    if let Ok(i) = api::read_eval(&s.meta, &request, s.offer.as_ref(), s.as_meta, s.doc.as_ref(), s.opts.as_ref()) {
        set_clock(s.now);
        ctx.events += 1;
        let o = api::evaluate(&i);
        clock::real();
        ctx.class(match &o {
            Outcome::Ok(_) => "evaluation: accepted",
            _ => "evaluation: rejected",
        });
        evalx::judge(ctx, s, &a, &o);
    }
}

/// Every algorithm name, casing of the fixed strings and number of parts.
fn enumerate_c06(ctx: &mut Ctx) {
    let mut r = Rng::new(crate::core::seed_for(ctx.seed, "C06-enumeration", 0));
    let mut base = honest(&mut r);
    while base.proof.as_ref().map_or(true, |p| p.style != 0) {
        base = honest(&mut r);
    }
    for alg in ALGS_OK.iter().chain(ALGS_BAD) {
        for variant in [(*alg).to_owned(), alg.to_lowercase(), alg.to_uppercase(), format!("{alg} "), format!("{alg}\0")] {
            let mut s = base.clone();
            s.proof.as_mut().unwrap().set_header("alg", json!(variant));
            s.tag("enumerated alg");
            decide_c06(ctx, &s);
        }
    }
    // all 8 casings of jwt
    for bits in 0..8u32 {
        let t: String = "jwt".chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        let mut s = base.clone();
        s.proof_type = Some(json!(t));
        s.tag("enumerated proof type");
        decide_c06(ctx, &s);
    }
    // every single-letter casing of the token type, and every single-character deletion
    let typ = "openid4vci-proof+jwt";
    for i in 0..typ.len() {
        for del in [false, true] {
            let mut t = typ.to_owned();
            if del {
                t.remove(i);
            } else {
                t.replace_range(i..=i, &typ[i..=i].to_uppercase());
            }
            let mut s = base.clone();
            s.proof.as_mut().unwrap().set_header("typ", json!(t));
            s.tag("enumerated typ");
            decide_c06(ctx, &s);
        }
    }
    for n in 1..=6 {
        let j = base.jwt().unwrap();
        let p: Vec<&str> = j.split('.').collect();
        let mut s = base.clone();
        s.raw = Some((0..n).map(|i| *p.get(i).unwrap_or(&"AAAA")).collect::<Vec<_>>().join("."));
        s.tag("enumerated parts");
        decide_c06(ctx, &s);
    }
    // all subsets of key members
    for bits in 0..8u32 {
        for text in [false, true] {
            let mut s = base.clone();
            let p = s.proof.as_mut().unwrap();
            let f = |v: Value| if text { json!(v.to_string()) } else { v };
            if bits & 1 == 0 {
                p.unset_header("kid");
            }
            if bits & 2 != 0 {
                p.set_header("jwk", f(json!({"kty": "OKP", "crv": "Ed25519", "x": b64([7u8; 32])})));
            }
            if bits & 4 != 0 {
                p.set_header("x5c", f(json!(["AAAA"])));
            }
            s.tag("enumerated key members");
            decide_c06(ctx, &s);
        }
    }
}

// ------------------------------------------------------------------ C29

fn gen_c29(r: &mut Rng) -> Scn {
    let mut s = honest(r);
    let t = s.now;
    let p = s.proof.as_mut().unwrap();
    match r.below(8) {
        0 => p.unset_header("kid"),
        1..=4 => {
            let (k, v) = if r.flip() { ("jwk", jwk_value(r)) } else { ("x5c", x5c_value(r)) };
            let v = if r.one_in(3) { json!(text(r)) } else { v };
            p.unset_header("kid");
            p.set_header(k, if r.flip() && !v.is_string() { json!(v.to_string()) } else { v });
        }
        5 => p.set_header("kid", json!(text(r))),
        _ => {}
    }
    for k in ["iss", "sub", "aud", "nonce"] {
        if r.one_in(3) {
            let v = text(r);
            p.set_body(k, json!(v));
        }
    }
    if r.one_in(8) {
        p.set_body("iss", Value::Null);
    }
    if r.one_in(4) {
        p.unset_body("iss");
    }
    for k in ["iat", "nbf", "exp"] {
        if r.flip() {
            let d = (t + slack(r)).max(-62_000_000_000 * S);
            let v = claim_time(r, d);
            p.set_body(k, v);
        }
    }
    match r.below(8) {
        0 => p.sig = None,
        1 => p.sig = Some(String::new()),
        2 => p.sig = Some(text(r).replace('.', "")),
        _ => {}
    }
    p.style = *r.pick(&[0, 1, 2]);
    r.shuffle(&mut p.header);
    r.shuffle(&mut p.body);
    if r.one_in(10) {
        break_form(r, &mut s);
    }
    s
}

fn case_c29(ctx: &mut Ctx, r: &mut Rng) {
    let s = gen_c29(r);
    let Some(jwt) = s.jwt() else { return };
    let v = oracle::proof(&jwt);
    ctx.decided(&jwt, true);
    if !v.unspecified.is_empty() {
        ctx.class("unspecified");
        return;
    }
    let w = json!({"token": jwt, "header": v.header, "body": v.body, "tags": s.tags, "form": v.form});
    ctx.sample(|| w.clone());
    let Some(got) = ctx.lib("ProofJwt::from_str", || w.clone(), || jwt.parse::<ProofJwt>().map_err(|e| e.to_string())) else { return };
    match got {
        Err(e) => {
            ctx.check(!v.form.is_empty(), || format!("well-formed proof cannot be parsed: {e}"), || w.clone());
        }
        Ok(p) => compare(ctx, r, &v, &p, &w),
    }
}

/// Is `text` the given member (verbatim string, or the JSON text of an object or array)?
fn is_member(text: &str, v: &Value) -> bool {
    match v {
        Value::String(s) => s == text,
        _ => serde_json::from_str::<Value>(text).map_or(false, |x| x == *v),
    }
}

fn compare(ctx: &mut Ctx, r: &mut Rng, v: &ProofView, p: &ProofJwt, w: &Value) {
    let (Some(h), Some(b)) = (&v.header, &v.body) else { return };
    ctx.class("parsed");
    let mut bad = |what: String| ctx.violation(what, w.clone());
    if h.get("typ").and_then(Value::as_str) != Some(p.header.typ.as_str()) {
        bad(format!("typ read as {:?}", p.header.typ));
    }
    if v.alg.as_deref() != Some(api::alg_name(&p.header.alg)) {
        bad(format!("alg read as {:?}", p.header.alg));
    }
    let key_ok = match (v.key_kinds.as_slice(), &p.header.additional_header) {
        ([], None) => true,
        (["kid"], Some(ProofJwtAdditionalHeader::KeyId(k))) => h["kid"].as_str() == Some(k),
        (["jwk"], Some(ProofJwtAdditionalHeader::Jwk(k))) => is_member(k, &h["jwk"]),
        (["x5c"], Some(ProofJwtAdditionalHeader::X5c(k))) => is_member(k, &h["x5c"]),
        _ => false,
    };
    if !key_ok {
        bad(format!("key reference {:?} read as {:?}", v.key_kinds, p.header.additional_header));
    }
    let opt = |k: &str| b.get(k).and_then(Value::as_str).map(str::to_owned);
    if opt("iss") != p.body.issuer {
        bad(format!("iss read as {:?}", p.body.issuer));
    }
    if opt("sub") != p.body.subject {
        bad(format!("sub read as {:?}", p.body.subject));
    }
    if opt("aud").as_ref() != Some(&p.body.audience) {
        bad(format!("aud read as {:?}", p.body.audience));
    }
    if opt("nonce").as_ref() != Some(&p.body.nonce) {
        bad(format!("nonce read as {:?}", p.body.nonce));
    }
    for (k, want, got) in [("iat", v.iat, Some(p.body.issued_at)), ("nbf", v.nbf, p.body.not_before), ("exp", v.exp, p.body.expires_at)] {
        let ok = match (want, got) {
            (None, None) => true,
            (Some(i), Some(d)) => (nanos(&d) - i.ns).abs() <= i.eps,
            _ => false,
        };
        if !ok {
            bad(format!("{k} {} read as {got:?}", b.get(k).unwrap_or(&Value::Null)));
        }
    }
    if v.signature != p.signature {
        bad(format!("signature {:?} read as {:?}", v.signature, p.signature));
    }
    // classes
    match v.key_kinds.as_slice() {
        [] => ctx.class("no key reference"),
        ["kid"] => ctx.class("kid"),
        [k] => {
            let form = match &h[*k] {
                Value::String(_) => "text",
                Value::Array(_) => "array",
                _ => "object",
            };
            ctx.class(&format!("{k} as {form}"));
        }
        _ => {}
    }
    match &v.signature {
        None => ctx.class("no signature"),
        Some(s) if s.is_empty() => ctx.class("empty signature"),
        _ => {}
    }
    match b.get("iss") {
        None => ctx.class("iss absent"),
        Some(Value::Null) => ctx.class("iss null"),
        _ => {}
    }
    for k in ["nbf", "exp"] {
        if b.get(k).map_or(false, |x| !x.is_null()) {
            ctx.class(&format!("{k} present"));
        }
    }
    if ["iat", "nbf", "exp"].iter().any(|k| b.get(*k).map_or(false, Value::is_number)) {
        ctx.class("NumericDate");
    }
    if !v.form.is_empty() {
        return;
    }
    standalone(ctx, r, v, p, w);
}

/// The stand-alone checks decide on the token's own values.
fn standalone(ctx: &mut Ctx, r: &mut Rng, v: &ProofView, p: &ProofJwt, w: &Value) {
    let b = v.body.clone().unwrap();
    let s = |k: &str| b.get(k).and_then(Value::as_str).map(str::to_owned);
    let nonce = s("nonce").unwrap();
    let others = [Some(nonce.clone()), None, Some(near(r, &nonce).0), s("aud"), Some(text(r))];
    for c in others {
        let want = c.as_ref() == Some(&nonce);
        let got = guarded(|| p.check_nonce(c.clone()).map_err(|e| api::view_jwt(&e)));
        ctx.events += 1;
        ctx.class(if want { "check_nonce accepts" } else { "check_nonce refuses" });
        let ok = match &got {
            Ok(Ok(())) => want,
            Ok(Err(e)) => !want && e.code == 315 && e.fields == json!({"expected_nonce": c, "actual_nonce": nonce}),
            Err(_) => false,
        };
        ctx.check(ok, || format!("check_nonce({c:?}) on nonce {nonce:?} gave {got:?}"), || w.clone());
    }
    let iss = s("iss");
    let seed = iss.clone().unwrap_or_else(|| "c".into());
    let others = [iss.clone(), None, Some(near(r, &seed).0), Some(String::new()), s("aud"), s("sub")];
    for c in others {
        let want = c == iss;
        let got = guarded(|| p.check_iss(c.clone()).map_err(|e| api::view_jwt(&e)));
        ctx.events += 1;
        ctx.class(if want { "check_iss accepts" } else { "check_iss refuses" });
        let ok = match &got {
            Ok(Ok(())) => want,
            Ok(Err(e)) => !want && e.code == 303 && e.fields == json!({"expected_iss_in_jwt": c, "actual_iss_in_jwt": iss}),
            Err(_) => false,
        };
        ctx.check(ok, || format!("check_iss({c:?}) on iss {iss:?} gave {got:?}"), || w.clone());
    }
    let aud = s("aud").unwrap();
    let others = [aud.clone(), near(r, &aud).0, near(r, &aud).0, String::new(), text(r)];
    for c in others {
        let want = c == aud;
        let got = guarded(|| p.check_aud(&c).map_err(|e| api::view_jwt(&e)));
        ctx.events += 1;
        ctx.class(if want { "check_aud accepts" } else { "check_aud refuses" });
        let ok = match &got {
            Ok(Ok(())) => want,
            Ok(Err(e)) => !want && e.code == 316 && e.fields == json!({"expected_aud_in_jwt": c, "actual_aud_in_jwt": aud}),
            Err(_) => false,
        };
        ctx.check(ok, || format!("check_aud({c:?}) on aud {aud:?} gave {got:?}"), || w.clone());
    }
    let got = guarded(|| p.extract_did().map_err(|e| api::view_jwt(&e)));
    ctx.events += 1;
    let want: Option<Result<Option<String>, u32>> = match v.key_kinds.as_slice() {
        [] => Some(Ok(None)),
        ["kid"] => {
            let kid = v.kid.clone().unwrap();
            match oracle::is_did_url(&kid) {
                Some(true) => Some(Ok(Some(oracle::did_of(&kid)))),
                Some(false) => Some(Err(306)),
                None => None,
            }
        }
        _ => Some(Err(314)),
    };
    if let Some(want) = want {
        ctx.class(match &want {
            Ok(Some(_)) => "extract_did gives a DID",
            Ok(None) => "extract_did gives none",
            Err(_) => "extract_did refuses",
        });
        let g = got.as_ref().map(|x| x.as_ref().map(Clone::clone).map_err(|e| e.code));
        ctx.check(g == Ok(want.clone()), || format!("extract_did gave {got:?}, expected {want:?}"), || w.clone());
    }
}

