#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
C = "crates/openid4vci/src/"
AT, CI, JW = C+"access_token/mod.rs", C+"credential_issuer/mod.rs", C+"jwt/mod.rs"
CRED, META, REQ, TT = C+"types/credential.rs", C+"types/credential_issuer_metadata.rs", C+"types/credential_request.rs", C+"types/token_type.rs"
MAC, ERR, RO, ER, VAL, BASE = C+"macros.rs", C+"error.rs", C+"return_object.rs", C+"error_response.rs", C+"validate.rs", C+"base.rs"
ATE, ATR = C+"access_token/error.rs", C+"access_token/error_response.rs"
CIE, CIC, JWE = C+"credential_issuer/error.rs", C+"credential_issuer/error_code.rs", C+"jwt/error.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
EV = "CredentialIssuer::evaluate_credential_request"
PRE = "CredentialIssuer::pre_evaluate_credential_request"
ATEV = "AccessToken::evaluate_access_token_request"

p("C01", "Token requests are granted only for the offer's own pre-authorized code",
  "An access-token request is approved exactly when it uses the pre-authorized-code grant, a credential offer is supplied whose grants contain a pre-authorized-code flow, the request's code is byte-for-byte the code in that flow, and the PIN conditions are met. Every other request is rejected: any other grant type, no offer, an offer without that flow, or any different code. Whether the offer also carries an authorization-code flow makes no difference.",
  ["inputs", "configurations"], "all requests (grant, code, PIN), all offers (both, either or no flow; any code), all evaluation options",
  "A dozen hand-written combinations with codes 'abc' and '0123'; near-miss codes, flow combinations and option combinations are not enumerated.",
  [AT, CI], [("evaluate_access_token_request", AT), ("GrantType::validate", AT)], [ATEV])
p("C02", "The user PIN binds a token request exactly as the offer demands",
  "When the offer requires a user PIN, a token request is approved only if it carries a PIN numerically equal to the PIN the issuer expects; when the offer does not require one, a request that carries a PIN is rejected. A PIN that needs more than 8 decimal digits is always rejected, and a PIN presented when the issuer supplied no expected PIN is always rejected.",
  ["inputs", "configurations"], "all u64 PINs presented/expected (incl. absent), all settings of user_pin_required (true/false/absent), all offers",
  "Tests use three PIN values and never a 9-digit one, a truncation-colliding pair or a PIN that is not required.",
  [AT], [("GrantType::validate", AT), ("validate_pre_authorized_code_flow", AT)], [ATEV])
p("C03", "A credential request is approved only with the issuer's live c_nonce",
  "A credential request is approved only if the nonce inside its proof is byte-for-byte the c_nonce the issuer supplied for the evaluation and that c_nonce had not expired at the instant of evaluation, i.e. its creation time plus its lifetime in seconds is not before now. If the issuer supplied no c_nonce, no proof is approved.",
  ["inputs", "schedules"], "all proof nonces, expected nonces, creation instants, lifetimes (0..u32::MAX) and evaluation instants",
  "Tests know one nonce and two ages (0 s, 100 h); the expiry boundary, sub-second instants, huge lifetimes and near-miss nonces are never reached.",
  [CI, JW], [("c_nonce expiry check", CI), ("ProofJwt::check_nonce", JW)], [EV, "ProofJwt::check_nonce"])
p("C04", "A proof is accepted only for this issuer and, where bound, this client",
  "A credential request is approved only if the proof's audience is byte-for-byte the credential issuer identifier in the issuer metadata. If the issuer names a client id, or the offer is not purely pre-authorized, the proof's issuer claim must equal that client id (and be absent when none was named); when no client id is named and the offer grants only the pre-authorized-code flow, the issuer claim is not constrained.",
  ["inputs", "configurations"], "all aud/iss claims, issuer identifiers, client ids (incl. absent/empty) and grant combinations of the offer",
  "Tests cover one audience mismatch and two client-id settings under one kind of offer.",
  [CI, JW], [("should_validate_iss", CI), ("ProofJwt::check_iss / check_aud", JW)], [EV, "ProofJwt::check_iss", "ProofJwt::check_aud"])
p("C05", "A proof outside its nbf/exp validity window is never accepted",
  "A proof whose not-before instant lies after the evaluation instant, or whose expiry instant is at or before it, is rejected, both by the proof's own time verification and by the evaluation of a credential request; a proof inside its window (or without those claims) is never rejected for its timing.",
  ["inputs", "schedules"], "all nbf/exp instants (absent, sub-second, extreme) against all evaluation instants",
  "Tests use two proofs 32 months off, only through the stand-alone verification call, and never a proof with time claims through the credential evaluation.",
  [JW, CI], [("ProofJwt::verify", JW), ("evaluate_credential_request", CI)], [EV, "ProofJwt::verify"])
p("C06", "Only well-formed, asymmetric openid4vci proof JWTs are accepted",
  "Pre-evaluation, evaluation and success-response creation accept a credential request's proof only if its proof type is 'jwt' and its token type is 'openid4vci-proof+jwt' (both in any letter case), it has at most three dot-separated parts whose first two are unpadded base64url JSON with the required members of the right types, its algorithm is known and neither 'none' nor an HMAC algorithm, and it names at most one of kid, jwk and x5c. Proofs that satisfy this are never rejected for their form.",
  ["inputs"], "all proof strings, headers, bodies, algorithms and proof types, including malformed ones",
  "Tests feed well-formed tokens only; algorithm restrictions, proof type at evaluation, padding, extra segments and ambiguous key members are never exercised.",
  [JW, REQ, BASE, CI], [("ProofJwt::from_str", JW), ("Validatable for ProofJwtHeader / CredentialRequestProof", JW)], [EV, PRE, "CredentialIssuer::create_credential_success_response", "Validatable::validate"])
p("C07", "The proof key is exactly the DID-document method named by the proof's kid",
  "For an approved credential request the returned public key is byte-for-byte the key of the verification method that the proof's kid identifies (absolute or relative id) in the supplied DID document, wherever in the document that method is embedded, and the returned algorithm is the one in the proof header. If no document is supplied, the method is absent, its key is not an Ed25519 key this library supports, or the proof names no kid, the request is rejected; key material of any other method is never returned.",
  ["inputs", "configurations"], "all kids, DID documents (number, order, section, id form and encoding of methods; look-alike decoys), header algorithms",
  "Tests use documents with exactly one method, so selecting the wrong one is invisible.",
  [JW, CI], [("ProofJwtHeader::extract_key_and_alg", JW), ("jwk_to_public_key_bytes", JW)], [EV, "ProofJwt::extract_key_and_alg"])
p("C08", "The returned message and signature are those of the wallet's proof JWT",
  "For an approved credential request, the message returned for the proof-of-possession check is the signing input of the proof exactly as the wallet sent it, and the returned signature is that proof's signature, so that verifying them decides possession. A proof without a signature is not approved.",
  ["inputs"], "all signed and unsigned proofs: any header/body member order, extra claims, any characters (including dots) in claims",
  "The one test pins the bytes of a single unsigned proof.",
  [JW, CI], [("ProofJwt::to_signable_message", JW), ("ProofJwt::extract_signature", JW)], [EV, "ProofJwt::to_signable_message", "ProofJwt::extract_signature"])
p("C09", "The DID to resolve and the subject are the DID of the proof's kid",
  "Pre-evaluation reports a DID exactly when the proof's kid is a DID URL, and then the DID without path, query and fragment; a kid that does not start with 'did:' and a jwk or x5c proof are rejected, and a request without proof or key reference reports none. Evaluation of the same request, when approved, reports that same DID as the subject.",
  ["inputs"], "all kid strings (DID URLs with path, query, fragment; non-DIDs), proofs with jwk/x5c/no key, requests without proof",
  "Two inputs are tested, both with well-formed kids or jwk.",
  [JW, CI], [("ProofJwt::extract_did", JW), ("pre_evaluate_credential_request", CI)], [PRE, EV, "ProofJwt::extract_did"])
p("C10", "Credential requests meeting all conditions are approved, unchanged; others not",
  "A credential request is approved only with a credential offer, without authorization-server metadata, with valid issuer metadata and with a proof; a request meeting every documented condition is always approved. The approved result names exactly the credential format that was requested, with all its members.",
  ["inputs", "configurations"], "all combinations of present/absent offer, server metadata, options, proof, and all credential format profiles",
  "Each precondition is tested once, alone, with one empty ldp_vc credential.",
  [CI, REQ], [("evaluate_credential_request", CI)], [EV])
p("C11", "Issuer metadata with duplicate credential ids is refused everywhere",
  "Issuer metadata in which two supported credentials carry the same id (absent ids never clash) is refused by its own validation, by offer creation and by credential-request evaluation; metadata whose present ids are pairwise distinct is never refused for its ids.",
  ["inputs"], "all lists of supported credentials: any length, any position of the clashing pair, absent and empty ids, near-duplicates",
  "No test builds metadata with duplicate ids.",
  [META, CI], [("Validatable for CredentialIssuerMetadata", META)], ["CredentialIssuerMetadata::validate", "CredentialIssuer::create_offer", EV])
p("C12", "Credential ids resolve to the metadata entry with that exact id",
  "Resolving a credential id yields the format of the supported credential whose id is exactly that string, and an inline credential resolves to itself; resolving a list keeps order and multiplicity. If any id is unknown the whole resolution fails and names the first unknown id.",
  ["inputs"], "all id lists and metadata: near-miss ids, entries without id, mixtures of ids and inline credentials",
  "Only one unknown id against empty metadata is tested; no successful resolution result is ever inspected.",
  [CI, META], [("CredentialOrId::resolve / CredentialOrIds::resolve_all", CI)], ["CredentialOrId::resolve", "CredentialOrIds::resolve_all", "CredentialIssuer::create_offer"])
p("C13", "A created credential offer says exactly what the issuer asked for",
  "An offer is created exactly when the issuer metadata is valid, no authorization-code flow is given and every credential id is in the metadata. It then carries the metadata's issuer identifier, the given credentials in order, exactly the given pre-authorized-code grant (code and PIN requirement) and no other grant.",
  ["inputs", "configurations"], "all metadata, credential lists (every conversion into a list), grants and endpoints",
  "One happy path with one inline credential and default metadata.",
  [CI], [("CredentialIssuer::create_offer", CI), ("CredentialOffer::new", CI)], ["CredentialIssuer::create_offer"])
p("C14", "The offer link always decodes back to the offer",
  "The link returned with an offer starts with the given endpoint, or with openid-credential-offer:// when none is given, and its query has a single credential_offer parameter in addition to the endpoint's own; percent-decoding that parameter yields JSON that parses back to the very offer. The link's added part contains only URL-safe ASCII characters.",
  ["inputs"], "all offers (any Unicode/control/reserved characters in any member) and all endpoints without fragment, with or without a query of their own",
  "One ASCII offer compared with a literal; no decoding, no custom endpoint.",
  [CI], [("CredentialOffer::url_encode", CI), ("create_offer url assembly", CI)], ["CredentialIssuer::create_offer", "CredentialOffer::url_encode"])
p("C15", "Credential success responses carry exactly what the issuer supplied",
  "A credential success response names the format of the credential request, carries the supplied credential or the supplied acceptance token and never both (and neither when none was supplied), and carries the supplied c_nonce and its lifetime unaltered and only together; it is refused only when the request itself is invalid. On the wire it has exactly the members format, credential, acceptance_token, c_nonce and c_nonce_expires_in, absent or null when not supplied.",
  ["inputs", "configurations"], "all requests, credentials, tokens, nonces and lifetimes",
  "One response with one credential; acceptance tokens, missing nonces and the serialized form are not tested.",
  [CI, CRED], [("create_credential_success_response", CI)], ["CredentialIssuer::create_credential_success_response"])
p("C16", "An issued credential is encoded as its format prescribes and decodes back",
  "In a credential success response an ldp_vc credential appears as a JSON object and a jwt_vc_json, jwt_vc_json-ld or mso_mdoc credential as an unpadded base64url JSON string; reading either form back yields exactly the supplied credential. Parsing a serialized response reproduces the response.",
  ["inputs"], "all credential format profiles with any members and characters",
  "One test with jwt_vc_json inspects the in-memory value, never the wire form, and no other format.",
  [CRED, CI, BASE], [("TryFrom<CredentialFormatProfile> for CredentialFormatProfileOrEncoded", CRED), ("base64url::encode", BASE)], ["CredentialIssuer::create_credential_success_response", "CredentialFormatProfileOrEncoded::try_from"])
p("C17", "Error responses carry the standard error code and the supplied details",
  "A token or credential error response serializes to a JSON object whose error member is the standard snake_case code of the chosen error, whose error_description and error_uri are the supplied ones (absent or null otherwise), and which contains every member of the supplied additional-details object; creating one never fails. Each code converts to its standard string and back without loss, distinct codes have distinct strings, and unknown strings are refused.",
  ["inputs"], "all error codes, descriptions, URIs and details objects (whose members do not reuse the three standard names); all strings for the reverse conversion",
  "Conversions are tested one way per code; the serialized response is never tested.",
  [ER, ATR, CIC, AT, CI], [("ErrorResponse", ER), ("AccessTokenErrorCode", ATR), ("CredentialIssuerErrorCode", CIC)], ["AccessToken::create_access_token_error_response", "CredentialIssuer::create_credential_error_response"])
p("C18", "Token success responses carry exactly what the issuer supplied",
  "A token success response carries every supplied value unaltered, in memory and on the wire under its OAuth/OpenID4VCI name, and serializing and parsing it gives it back. Its validation refuses it exactly when a c_nonce lifetime is present without a c_nonce; the token type converts to 'Bearer' and back, and other token types are refused.",
  ["inputs"], "all field values, including absent, zero, u32::MAX and arbitrary Unicode",
  "One response with every field set is compared in memory; the wire form and its validation are untested.",
  [AT, TT], [("create_access_token_success_response", AT), ("Validatable for AccessTokenSuccessResponse", AT), ("AccessTokenType", TT)], ["AccessToken::create_access_token_success_response"])
p("C19", "A rejection names a condition that the request really violates",
  "Whenever a token request, credential request, offer creation or response creation is rejected, the error identifies a condition that the inputs really violate, and the values reported with it (expected and actual nonce, issuer or audience, instants, ids, mismatch flags, grant types) are the true ones from the inputs. When exactly one condition is violated, the error is the one for that condition.",
  ["inputs"], "all rejected inputs, with one or several violated conditions",
  "Tests compare the error of about ten single-fault inputs.",
  [AT, CI, JW, ATE, CIE, JWE], [("error construction at each check", CI)], [ATEV, EV, PRE, "CredentialIssuer::create_offer"])
p("C20", "Every error maps to its stable code, name, description and details",
  "Converting any error to its error information yields the documented numeric code of that error (unique within and across the error families), its name, its human-readable description, and all values carried by the error as structured additional information, for any contents of the error; serializing the information keeps them.",
  ["inputs"], "all error variants of the four families with arbitrary payloads, nested errors, and moved/cloned/boxed instances",
  "Four of about forty error variants are tested.",
  [MAC, ERR, VAL, ATE, CIE, JWE], [("error_impl! code()/information()", MAC), ("ErrorInformation::new", ERR)], ["*Error::information", "ErrorInformation as Display/Serialize"])
p("C21", "Return objects expose either the value or the error, and keep warnings",
  "Turning a result into a return object yields exactly the value and no error for a success, and exactly the error's information and no value for a failure; serialized, exactly one of info and error is present. Adding warnings keeps all of them in the order added and changes neither value nor error.",
  ["inputs", "histories"], "all results of the four error families and any sequence of added warnings",
  "No test touches return objects.",
  [RO, MAC, ERR], [("ToReturnObject via error_impl!", MAC), ("ReturnObject::add_warning", RO)], ["to_return_object", "ReturnObject::add_warning"])
p("C22", "No input makes the library panic, abort or hang",
  "Every public operation returns a value or an error for every input, however malformed, large, deeply nested or extreme (wallet-supplied strings and JSON, DID documents, instants, durations and numbers); it never panics, overflows, aborts or fails to return.",
  ["inputs"], "all byte strings, JSON documents, DID documents and argument values for every public operation",
  "Unit tests supply only well-formed input.",
  [JW, CI, AT, CRED, META, REQ, MAC], [("fallible parsing with Result", JW), ("unreachable!/unwrap sites", JW), ("DateTime arithmetic", CI)], ["every public operation"])
p("C23", "The library is free of undefined behaviour and memory errors",
  "No use of the public API, in particular reading an error's numeric code from its in-memory representation, performs an invalid, uninitialised, misaligned or out-of-bounds memory access or any other undefined behaviour, and nothing is freed twice or used after being freed.",
  ["inputs"], "all public operations on all inputs, for every error variant wherever it is stored",
  "Ordinary test runs do not detect undefined behaviour and call the unsafe code on four variants.",
  [MAC, JW, CI, AT], [("unsafe discriminant read", MAC)], ["*Error::information", "every public operation"])
p("C24", "Operations are stateless: same inputs, same verdict, whatever ran before",
  "The result of every operation depends only on its arguments and the current time: repeating it, running any other operations before it, or running it concurrently with others from many threads gives the same result and leaves its by-reference inputs unchanged, without data races.",
  ["histories", "schedules"], "all interleavings and histories of calls to all operations, from any number of threads",
  "Each unit test makes one call in isolation; no test repeats, reorders or parallelises calls.",
  [AT, CI, JW, META, MAC], [("no shared mutable state", CI)], ["every public operation"])
p("C25", "Every value survives being serialized and parsed again",
  "Serializing and parsing any offer, grant, credential format profile, issuer metadata, credential request, token request, token response, nonce or evaluation option yields an equal value, and two different values never serialize to the same JSON.",
  ["inputs"], "all values of all serializable types: every variant, absent/empty/extreme members, arbitrary Unicode",
  "No test serializes and re-parses; only a few fixed documents are parsed.",
  [CRED, META, REQ, AT, CI], [("serde derive attributes", CRED)], ["serde_json::to_string / from_str on public types"])
p("C26", "Documents in the specification's wire form are read without loss",
  "Parsing a JSON document written in the member names and value forms of the OpenID4VCI draft-11 specification for issuer metadata, supported credentials, offers, credential requests, proofs and token requests succeeds, and what is read holds every specified member of the document, as serializing it again shows.",
  ["inputs"], "all specification-conformant documents for the flows this library supports",
  "Tests parse three example credentials and inspect a few members.",
  [CRED, META, REQ, AT, CI, JW], [("serde renames", META), ("CredentialSubject", CRED), ("ProofJwtBody date claims", JW)], ["serde_json::from_str / to_string on public types", "ProofJwt::from_str"])
p("C27", "Issuance histories: only entitled wallets get a token or a credential",
  "Over any history of offers, token requests and credential requests run through this library with its documented flow, a token is granted only for the code and PIN of the offer it answers, and a credential is approved only for a proof made for that issuer with the latest c_nonce handed out in that session within its lifetime; replayed, cross-session, cross-issuer and late messages are rejected. Honest wallets that follow the flow in time are always served.",
  ["histories", "schedules", "fault_sequences"], "all interleaved sessions of honest and adversarial wallets across several issuers, with replayed, reordered, delayed and tampered messages",
  "No test chains two operations of the flow except offer creation inside a fixture.",
  [AT, CI, JW], [("README flow steps 2-5.2", CI)], ["all flow operations, through their JSON forms"])
p("C28", "Response timestamps are the instant of creation",
  "The instant returned with a token or credential success response lies between the start and the end of the call that created it, so that a nonce or token lifetime counted from it is never longer or shorter than granted.",
  ["inputs", "schedules"], "all responses created at all instants",
  "Tests discard the returned instant.",
  [AT, CI], [("Utc::now() in both create_*_success_response", CI)], ["AccessToken::create_access_token_success_response", "CredentialIssuer::create_credential_success_response"])
p("C29", "A parsed proof says exactly what the token said",
  "Parsing a proof JWT yields exactly the header members, claims and signature part that the token contains (absent members stay absent), and the stand-alone checks of nonce, issuer, audience and key reference decide on exactly those values.",
  ["inputs"], "all well-formed proofs: any member order and spacing, optional members present or absent, extra members, arbitrary Unicode",
  "One token is parsed and five of its members compared.",
  [JW, BASE], [("ProofJwt::from_str", JW), ("serde renames of ProofJwtHeader/ProofJwtBody", JW)], ["ProofJwt::from_str", "ProofJwt::check_*", "ProofJwt::extract_did"])
p("C30", "A rejection gives away nothing of the code or PIN it was measured against",
  "What a caller can see of a rejected token request (error, its text, its structured information) depends on the offer's pre-authorized code only through whether the request's code equals it, and on the expected PIN only through whether there is one and whether the request's PIN equals it; no part, length or likeness of an unmatched code or PIN can be told from it. The answer to a credential request does not depend on the pre-authorized code, PIN requirement or issuer state in the offer's grants at all.",
  ["inputs"], "all pairs of evaluations that differ only in secrets which the request does not match: every code, PIN, offer and request",
  "A property of pairs of runs (non-interference); a test compares one error with one expectation.",
  [AT, ATE, CI], [("errors of evaluate_access_token_request", AT), ("AccessTokenError", ATE)], [ATEV, EV, "AccessTokenError::information / Display / Debug / Serialize"])
p("C31", "Memory is given back, and bounded by the size of the arguments",
  "Apart from one-time initialisation, every operation gives back all the memory it took once its results are dropped, so that nothing accumulates over any number of calls with any arguments. While it runs it holds at most an amount proportional to the size of its arguments, never one set by a number they contain.",
  ["inputs", "histories"], "all operations, repeated and in long runs with ever different arguments; arguments from empty to hundreds of kilobytes, with numbers at the end of their range",
  "No test looks at memory; leaks and caches show only over many calls.",
  [CI, AT, JW, MAC, META, CRED], [("owned values, no caches", CI)], ["every public operation", "serde_json::from_str on public types"])
p("C32", "What a document says does not depend on how its JSON is spelled",
  "Reading any offer, grant, credential, credential list, issuer metadata, credential request, token request, response, nonce, option or proof gives the same value, or is refused alike, for every spelling of the same JSON value: any order of members, any white space, any escapes in texts and member names, and whether it comes as text, bytes, stream or already parsed value. The same holds for the header and claims inside a proof token.",
  ["inputs"], "all JSON values for every readable type, well-formed for it or not, in all their spellings",
  "Tests read documents in one spelling each.",
  [CRED, META, REQ, AT, CI, JW, BASE], [("serde derive attributes (tag, flatten, untagged)", CRED), ("ProofJwt::from_str", JW)], ["serde_json::from_str / from_slice / from_reader / from_value on public types", "ProofJwt::from_str"])
p("C33", "Operations compute and do nothing else",
  "While any operation runs (reading, evaluating, creating, describing) the library writes nothing to standard output, standard error or anywhere else, touches no file, uses no network, starts no process or thread, sends no signal and does not wait, and it changes no setting of the process such as its environment, working directory, signal handlers or panic hook.",
  ["inputs", "histories"], "all public operations on all inputs, accepted or rejected, well-formed or hostile",
  "The test harness captures output, and no test watches what a call does besides returning.",
  [CI, AT, JW, MAC, ERR], [("pure functions of their arguments and the clock", CI)], ["every public operation", "system calls during it"])
p("C34", "Every operation ends soon, whatever its arguments",
  "Any public operation on arguments that together come to at most about 64 KiB, however they are shaped (long, many, or nested as deep as JSON reading allows), ends, and uses no more than a fraction of a second of processor time: no input makes it loop without end or do work out of all proportion to its size.",
  ["inputs"], "all public operations on all inputs up to about 64 KiB in size, accepted or rejected",
  "The tests use small arguments of one shape; work that explodes with length, count or depth, or never ends, shows only on the shape it explodes on.",
  [CI, AT, JW, MAC, ERR], [("pure functions of their arguments and the clock", CI)], ["every public operation", "processor time of it"])
p("C35", "Incomplete or ill-typed documents are refused, never filled in",
  "Reading an offer, a grant, a credential format, issuer metadata, a credential request, a token request, a response, a nonce or an option succeeds only if the document has every member that its type requires, each with a value of the required JSON type (a JSON object for a structure, a string for a name): nothing that is missing is filled in with an invented value, and nothing ill-typed is converted or dropped. Members that the type does not know change nothing of what is read (issuer metadata keeps them aside). A member, or a header parameter or claim of a proof, that occurs more than once is refused or counts as its last occurrence only.",
  ["inputs"], "all JSON documents for every readable type; JSON arrays in the place of structures and JSON objects in the place of names of an enumeration are left open",
  "Tests read a few complete documents; which incomplete, ill-typed or repeated members are accepted shows only on documents nobody wrote a test for.",
  [CRED, META, REQ, AT, CI, JW], [("serde derive attributes (default, flatten, untagged, alias)", CRED), ("ProofJwt::from_str", JW)], ["serde_json::from_str on public types", "ProofJwt::from_str"])
p("C36", "An answer follows from what the decision is about, and from nothing else",
  "An answer does not change with parts of the input that its decision is not about, apart from where it only repeats them. Token requests: the offer's issuer, its offered credentials and the content of its authorization-code grant, and, when the request has no PIN, the PIN the issuer expects. Credential requests: issuer metadata other than its credential_issuer and the ids in it, the offer's issuer and credentials, which credential is requested, methods and members of the DID document other than the method that the kid names, the proof's iat, sub, signature text, unknown claims and parameters, and the order and spacing of its members. Offers: the metadata's members other than its name and ids, and whether they are accepted also not on the flow's values and the endpoint. Credential responses: the proof of the request.",
  ["inputs"], "all inputs to the evaluations of token and credential requests, to pre-evaluation, offer creation and credential responses, and all changes of the parts named",
  "A test evaluates one input at a time; that a part has no influence is a statement about pairs of inputs.",
  [CI, AT, JW, META], [("CredentialIssuer::evaluate_credential_request", CI), ("AccessToken::evaluate_access_token_request", AT)], ["evaluate_credential_request", "pre_evaluate_credential_request", "evaluate_access_token_request", "create_offer", "create_credential_success_response"])
p("C37", "Equality, hashes and copies agree with what values say",
  "Two values of a public type with an equality are equal exactly if they say the same: every member has the same value (maps regardless of order). Equality is symmetric and reflexive and != is its negation, hashes of equal values are equal, and a copy of a value is equal to it and says the same.",
  ["inputs"], "all pairs of readable values of each public type, of errors of all four families, of answers and of return objects",
  "Tests compare values with == and so trust it; a comparison that overlooks a member makes them pass.",
  [CRED, META, REQ, AT, CI, JW, ERR], [("derived PartialEq, Eq, Hash and Clone", CI)], ["==, !=, Hash and Clone of public types"])
p("C38", "The stand-alone steps agree with the operations composed of them",
  "A credential request is approved exactly if each stand-alone step succeeds for the same values (metadata and request validate, an offer and no authorization-server metadata, a nonce within its lifetime, the proof parses and validates, verify, check_nonce, check_iss where documented, check_aud, extract_key_and_alg, extract_signature, to_signable_message, extract_did), it then reports what these steps return, and a refusal is the error of a step that fails. The same holds of pre-evaluation, token-request validation, offer creation (validate, resolve, resolve_all, new, url_encode), credential responses (validate, get_format_name, conversion), conversions of lists, words of enumerations, and error information.",
  ["inputs"], "all readable inputs to the operations and steps named, all credential lists, words and errors",
  "A test calls one step or one operation with one input; that both ways agree is a statement about every input.",
  [CI, AT, JW, CRED, REQ, META, ERR], [("CredentialIssuer::evaluate_credential_request", CI), ("ProofJwt", JW), ("CredentialOrIds", CI), ("AccessTokenRequest", AT)], ["evaluate_credential_request", "pre_evaluate_credential_request", "create_offer", "create_credential_success_response", "ProofJwt steps", "validate", "resolve", "resolve_all", "try_from", "to_return_object"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
