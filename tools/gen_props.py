#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements can be edited in one place)."""
import json, os
AR="src/core/authorization_request/mod.rs"; PA="src/core/authorization_request/parameters.rs"
VR="src/core/authorization_request/verification/"; WA="src/wallet.rs"; OB="src/core/object/mod.rs"
RS="src/core/response/mod.rs"; RP="src/core/response/parameters.rs"; ISO="src/core/iso_18013_7/mod.rs"
JWE="src/core/jwe.rs"; DQ="src/core/dcql_query.rs"; CF="src/core/credential_format/mod.rs"
MD="src/core/metadata/mod.rs"; MV="src/core/metadata/parameters/verifier.rs"; MW="src/core/metadata/parameters/wallet.rs"
VM="src/verifier/mod.rs"; VB="src/verifier/request_builder.rs"; VC="src/verifier/client.rs"; VS="src/verifier/session.rs"
SG="src/verifier/request_signer.rs"; UT="src/utils.rs"; HU="src/core/util/mod.rs"; FE="openid4vp-frontend/src/lib.rs"
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or [],"hook_needed":None}})
p("C01","A wallet accepts a request only after the right verification hook approved it",
 "When a wallet validates an authorization request and gets a request object back, the verification hook belonging to the Client Identifier Prefix of that object's client_id (no ':' or no client_id: pre-registered; a prefix without a hook of its own: the catch-all hook, told that prefix; the prefix is the text before the first ':') was called with exactly that object and exactly the JWT it was decoded from (nothing, for an unsigned request) and it succeeded. The reserved prefix 'origin' is always refused, and a hook that the wallet does not implement refuses.",
 ["inputs","configurations"],"every request URL / request object, every client_id string, every wallet implementation and hook result",
 "the tests call one hook with one or two client_ids; the claim is about all prefixes, all hook results and all three ways of passing a request",
 [AR,VR+"mod.rs",PA],[("prefix dispatch",VR+"mod.rs verify_request"),("prefix extraction",PA+" ClientId::resolve_prefix"),("order of resolve/verify/return",AR+" AuthorizationRequest::validate")],["Wallet::validate_request","AuthorizationRequest::validate"])
p("C02","Unsupported Client Identifier Prefixes are refused by wallet and verifier",
 "A request whose client_id carries a Client Identifier Prefix is accepted by a wallet only if that exact prefix is in the wallet metadata's client_id_prefixes_supported list, and a verifier only builds a request for a wallet whose metadata lists the prefix of the verifier's client. When the wallet metadata has no such list only 'pre-registered' counts as listed, and a list that is present but malformed is an error, never the default.",
 ["inputs","configurations"],"every wallet metadata, client and request","tests use one supported and one unsupported prefix",
 [VR+"mod.rs",VB,MW,OB],[("membership test in wallet",VR+"mod.rs validate_request_against_metadata"),("membership test in builder",VB+" build_with_session_id"),("default list",MW+" ClientIdPrefixesSupported::default")],["AuthorizationRequest::validate","RequestBuilder::build"])
p("C03","Outer and inner client_id must agree",
 "If an authorization request carries a client_id outside the request object and the resolved request object carries one too, validation succeeds only if the two strings are identical.",
 ["inputs"],"every pair of outer and inner client_id, in all three request forms","the tests contain no mismatching pair for by-reference or by-value requests",
 [AR],[("comparison",AR+" AuthorizationRequest::validate")],["AuthorizationRequest::validate"])
p("C04","Request Object JWTs must declare the request-object type",
 "Resolving an authorization request passed as a JWT, by value or by reference, succeeds only if the JOSE header of that JWT has a string 'typ' equal to 'oauth-authz-req+jwt'. The only exception is a request whose outer client_id starts with 'redirect_uri:', for which any or no 'typ' is tolerated.",
 ["inputs"],"every JWT header and outer client_id, by value and by reference","unit tests check a handful of headers on the private helper, not that both resolution paths apply it",
 [AR],[("typ check",AR+" validate_request_object_typ, called from resolve_request")],["AuthorizationRequest::resolve_request"])
p("C05","Request resolution is faithful to the request",
 "Resolving a by-value request decodes the embedded JWT; a by-reference request performs exactly one GET to exactly the given request_uri with an empty body and the header 'Prefer: OID4VP-1.0.0' and decodes the response body, and only if the status is a success and the body is UTF-8; a direct request uses its own parameters with the outer client_id, if any, overriding the inner one, and performs no network request. The returned object is parsed from the very JWT that is returned with it, and a direct request returns no JWT.",
 ["inputs","fault_sequences"],"every request form, URL, HTTP status and body","no test covers by-reference resolution with failing statuses or checks which JWT the object came from",
 [AR,HU],[("match on the three forms",AR+" resolve_request"),("request construction",HU+" base_request")],["AuthorizationRequest::resolve_request","AsyncHttpClient::execute"])
p("C06","DID requests are accepted only with a valid, matching, trusted key",
 "The bundled verification for the decentralized_identifier prefix succeeds only if the JWT's string 'alg' is in the wallet's supported request-signing algorithms and, unless that supported 'alg' contains 'none', the DID part of the JWT's 'kid' (before the first '#') equals the client_id without its prefix, is in the trusted list whenever one is given, and the same JWT verifies under the public key the resolver returns for exactly that 'kid'. A missing or malformed header, client_id or supported-algorithms list is an error.",
 ["inputs","configurations"],"every JWT, metadata, client_id, trusted list and resolver result","tests exercise one happy path; forged kid, empty trust list, unsupported alg etc. are not enumerated",
 [VR+"did.rs"],[("guards before resolution and decode_verify",VR+"did.rs verify_with_resolver")],["verify_with_resolver"])
p("C07","x509_san_dns requests are bound to a DNS name of the signing certificate",
 "The bundled verification for the x509_san_dns prefix succeeds only if the JWT's string 'alg' is in the wallet's supported request-signing algorithms, some DNS name in the Subject Alternative Name of the first certificate of 'x5c' is exactly the client_id without its prefix, and the signature part of the JWT verifies over its 'header.payload' bytes with a verifier built from that same certificate's public key and that 'alg'.",
 ["inputs","configurations"],"every JWT, certificate chain, client_id and metadata","tests have one generated certificate; other SAN types, several certificates, several names, tampered parts are not covered",
 [VR+"x509_san.rs"],[("guards and signature check",VR+"x509_san.rs validate")],["x509_san::validate"])
p("C08","x509_hash requests are bound to the hash of the signing certificate",
 "The bundled verification for the x509_hash prefix succeeds only if the JWT's string 'alg' is in the wallet's supported request-signing algorithms, the client_id without its prefix is exactly the unpadded base64url SHA-256 of the DER bytes of the first certificate of 'x5c', and the signature part of the JWT verifies over its 'header.payload' bytes with a verifier built from that same certificate's public key and that 'alg'.",
 ["inputs","configurations"],"every JWT, certificate chain, client_id and metadata","no test drives this function through a full JWT",
 [VR+"x509_hash.rs"],[("guards and signature check",VR+"x509_hash.rs validate")],["x509_hash::validate"])
p("C09","The bundled P-256 verifier and signer do what they announce",
 "The bundled P-256 verifier can be built only for the algorithm 'ES256' and from the given public key, and its verification succeeds only if the ECDSA verification of exactly the given payload and signature under that key succeeds. The bundled P-256 signer announces the algorithm and public JWK of its own key and signs exactly the given payload with that key, and its fallible signing entry points give the same signature.",
 ["inputs"],"every key, algorithm name, payload and signature","tests sign and verify one message",
 [VR+"verifier.rs",SG],[("algorithm guard",VR+"verifier.rs P256Verifier::from_spki"),("verify",VR+"verifier.rs P256Verifier::verify"),("sign",SG+" P256Signer")],["Verifier for P256Verifier","RequestSigner for P256Signer"])
p("C10","Only well-formed request objects parse, and the response destination is right",
 "A set of parameters becomes a request object only if nonce and response_type are present and well-formed, client_id is well-formed when present, the response_mode (direct_post when absent) is a supported one, response_uri and redirect_uri are not both present, direct_post modes have a well-formed response_uri, and Digital-Credentials-API modes have neither URI. The parsed object reports exactly the given response_mode, response_type, nonce, client_id, the prefix derived from that client_id, and, for direct_post modes, the response_uri as the place to send the response.",
 ["inputs"],"every JSON object","tests parse a few valid examples and one or two invalid ones",
 [AR,OB],[("match table",AR+" TryFrom<UntypedObject> for AuthorizationRequestObject")],["AuthorizationRequestObject::try_from and getters"])
p("C11","Encrypted response modes are accepted only when the wallet can encrypt",
 "A wallet validates a request with an encrypted response mode (direct_post.jwt, dc_api.jwt) only if client_metadata carries a well-formed key set with at least one key marked use 'enc' that has a string 'alg', and, whenever the wallet metadata lists supported encryption algorithms or content-encryption algorithms, at least one such key's 'alg' and at least one of the verifier's content-encryption values (A128GCM when the verifier gives none) is listed. Malformed lists are errors, and a request without a readable response_mode is refused.",
 ["inputs","configurations"],"every client_metadata, wallet metadata and response mode","the tests have no encrypted-mode request with mismatching algorithms",
 [VR+"mod.rs",MV,PA],[("negotiation",VR+"mod.rs validate_request_against_metadata"),("default enc",MV+" EncryptedResponseEncValuesSupported::default")],["AuthorizationRequest::validate"])
p("C12","A response is posted once, in its mode's form, to the request's address",
 "Submitting a response for direct_post sends exactly one POST to the request's response address whose body is the form encoding of the plain response; for direct_post.jwt the same with the encrypted response; each with content type application/x-www-form-urlencoded. A response of the other kind, or an unsupported mode, is an error without any network request, and Digital-Credentials-API modes never make a network request and return no redirect.",
 ["inputs"],"every request object and response","tests submit one unencoded response",
 [WA,RS],[("match on response mode",WA+" Wallet::submit_response")],["Wallet::submit_response","AsyncHttpClient::execute"])
p("C13","The verifier's answer to a submission is never misread",
 "Submitting a response succeeds only if the HTTP exchange succeeded with a success status and a UTF-8 body; the redirect returned is exactly the string 'redirect_uri' member of the JSON body parsed as a URL, and none if the body is blank or has no such string. A non-blank body that is not JSON, or a redirect_uri that is not a URL, is an error.",
 ["inputs","fault_sequences"],"every HTTP status and body, including transport failure","tests return one fixed response body",
 [WA],[("status/body handling",WA+" Wallet::submit_response")],["Wallet::submit_response"])
p("C14","Requests arrive only through the wallet's own authorization endpoint",
 "Parsing an authorization request URL succeeds only if it has a query and its authority and path both equal those of the expected authorization endpoint, and a wallet validating a URL expects the endpoint of its own metadata. The request is parsed from exactly that URL's query, and turning a request into a URL puts its form encoding in the query of the given endpoint, replacing whatever query was there.",
 ["inputs"],"every URL and endpoint","doctests use one URL",
 [AR,WA],[("authority and path comparison",AR+" AuthorizationRequest::from_url"),("to_url",AR)],["AuthorizationRequest::from_url","Wallet::validate_request","AuthorizationRequest::to_url"])
p("C15","A built request carries the verifier's own identity, query and reply address",
 "Every request a verifier builds (for a URL or for the Digital Credentials API) carries the configured client's client_id, the query given to the builder, and, for direct_post modes, the submission endpoint extended by one path segment holding the session id, whatever values the caller set for those parameters; all other parameters come from the defaults overridden by the caller's. Building fails without a query, response type or response mode, with an unsupported response mode, or if the parameters do not form a valid request object.",
 ["inputs","configurations"],"every set of default and caller parameters, client, endpoint and session id","the e2e test builds one request without conflicting parameters",
 [VB,VM],[("inserts after caller parameters",VB+" build_with_session_id, build_dc_api")],["RequestBuilder::build","RequestBuilder::build_with_session_id","RequestBuilder::build_dc_api"])
p("C16","No request is handed out without a matching stored session",
 "A verifier returns a request (URL or JWT) only after the session store accepted exactly one new session holding the returned session id, the signed JWT of this request, the request object that was signed, and the query, with status 'request sent', or 'sent by reference' if and only if the URL refers to the request; if the store refuses, building fails. The returned URL carries the client's client_id and either that same JWT or the configured base URL extended by one path segment holding that session id.",
 ["inputs","fault_sequences","histories"],"every configuration, store failure and caller","the e2e test never lets the store fail and does not compare the stored session to what was returned",
 [VB,VS],[("initiate before return",VB)],["RequestBuilder::build*","SessionStore::initiate"])
p("C17","Signed request JWTs sign exactly what they contain",
 "Every JWT produced by a bundled client is the base64url header, the base64url of the given request object, and the base64url of the signer's signature over exactly those first two parts joined by '.'; its header holds the signer's algorithm, 'typ' = 'oauth-authz-req+jwt', and the verification method as 'kid' (DID client) or all certificates of the chain in order as standard-base64 DER 'x5c' (certificate clients).",
 ["inputs"],"every request object, signer and chain","the e2e test verifies one DID-signed JWT; order and completeness of chains are not covered",
 [VC],[("make_jwt",VC),("headers",VC+" generate_request_object_jwt")],["Client::generate_request_object_jwt"])
p("C18","A verifier client's identity comes from its key material",
 "A DID client is created only if the public key resolved for its verification method equals its signer's public key, and its client_id is 'decentralized_identifier:' plus the DID before the last '#'; an x509_san_dns client's id is 'x509_san_dns:' plus the first DNS name in the leaf certificate's Subject Alternative Name and an x509_hash client's id is 'x509_hash:' plus the unpadded base64url SHA-256 of the leaf certificate's DER. Creation fails, without panicking, when that material is missing, and the prefix a client reports is the prefix of its client_id.",
 ["inputs"],"every verification method, certificate chain, resolver and signer","tests construct one DID client",
 [VC],[("constructors",VC+" DIDClient::new, X509SanDnsClient::new, X509HashClient::new")],["Client::id","Client::prefix"])
p("C19","A session outcome is what the validator returned, under the right session",
 "Verifying a response looks up the session of the given reference, runs the caller's validator exactly once on that session and the given response, and then stores 'complete' with exactly the validator's outcome under the same reference; success is reported only if all of this succeeded, and an unknown session is an error without running the validator. Polling returns exactly the stored status of the given session.",
 ["histories","inputs","fault_sequences"],"every reference, response, validator outcome and store failure","the e2e test has one session and a store that never fails",
 [VM],[("verify_response",VM),("poll_status",VM)],["Verifier::verify_response","Verifier::poll_status"])
p("C20","Fetching by reference serves the stored JWT and never rewinds progress",
 "Retrieving a request by reference returns exactly the JWT stored for that session, and moves the session's status only from 'sent by reference' to 'sent', never from any later status, failing if the session is unknown or the update fails. Session statuses are ordered sent-by-reference < sent < received < complete, and outcomes error < failure < success; two outcomes are equal exactly when they are of the same kind.",
 ["histories","fault_sequences"],"every session status and order of calls","tests fetch one request once",
 [VM,FE],[("guarded status update",VM+" retrieve_authorization_request"),("orderings",FE)],["Verifier::retrieve_authorization_request"])
p("C21","The in-memory session store neither loses nor mixes up sessions",
 "The in-memory store returns for an id exactly the session stored under its own id with the last status set for it, updates and removes only the session of the given id, reports an error for an unknown id, and gives the same answers when used from several tasks at once: a momentarily busy store makes callers wait, it does not fail.",
 ["histories","schedules"],"every sequence and interleaving of store calls","the e2e test uses one session from one task",
 [VS],[("locking and map operations",VS+" MemoryStore")],["SessionStore for MemoryStore"])
p("C22","Response form encoding and decoding agree",
 "The form encoding of a plain response carries exactly two possible fields, 'vp_token' holding the JSON text of the token and 'state' holding the state (only when there is one), and an encrypted response exactly one, 'response'; decoding a form yields an encrypted response when it has a 'response' field and otherwise a plain response with the token parsed from 'vp_token' and the same optional state, or an error. Building a response keeps the given token and state.",
 ["inputs"],"every token, state and form body","tests encode two or three fixed responses",
 [RS],[("encode",RS+" into_x_www_form_urlencoded"),("decode",RS+" from_x_www_form_urlencoded")],["UnencodedAuthorizationResponse","AuthorizationResponse"])
p("C23","Typed parameters use their own name and are never silently defaulted",
 "Getting, inserting or removing a typed parameter touches exactly the member with that parameter's name: get returns nothing only if it is absent and otherwise its parse result, get-or-default falls back to the default only if it is absent and fails if it is malformed, insert replaces the member with the given value and returns the previous one, remove deletes it. Requiring a parameter fails if it is absent or malformed.",
 ["inputs","histories"],"every object, parameter type and value","tests touch a few parameters with well-formed values",
 [OB],[("get/get_or_default/insert/remove/parsing_error",OB)],["UntypedObject","ParsingErrorContext"])
p("C24","Wire names are exact and mutually inverse",
 "Every response mode, response type, request-uri method and credential format identifier is written with its name from the specification and that name is read back as the same value; an unknown response mode, response type or format is kept verbatim, an unknown request-uri method is refused, and comparison is exact. Exactly the '.jwt' response modes count as encrypted, and every typed parameter's JSON member name is the one in the specification.",
 ["inputs"],"every wire string and every enum value","tests cover some names in one direction",
 [PA,CF,MW,MV,RP,DQ],[("name tables",PA+" ResponseMode, ResponseType, RequestUriMethod"),("format names",CF)],["From/TryFrom/Display/Serialize impls"])
p("C25","A non-empty list is never empty",
 "No safe use of the non-empty list type, including its default value, conversion from a list and deserialization, yields an empty one; conversion fails exactly on empty input and otherwise keeps all elements in order, pushing appends, and a mutable view that could remove elements is never handed out.",
 ["inputs","programs"],"every program using the public API","tests convert one empty and one non-empty list",
 [UT],[("constructors",UT),("visibility of the inner list",UT)],["NonEmptyVec"])
p("C26","mdoc handovers commit to exactly the session's parameters",
 "The redirect handover is ['OpenID4VPHandover', SHA-256(CBOR([client_id, nonce, thumbprint-bytes-or-null, response_uri]))] and the Digital-Credentials-API handover is ['OpenID4VPDCAPIHandover', SHA-256(CBOR([origin, nonce, thumbprint-bytes-or-null]))], with text, byte-string and null CBOR types as in the specification; direct CBOR output and serde serialization produce the same structure. Deserialization accepts only the matching identifier and takes the hash from the second element.",
 ["inputs"],"every client_id, nonce, thumbprint and URI","tests use the specification's example vectors",
 [ISO],[("Handover::new / DcApiHandover::new",ISO),("Serialize/Deserialize/to_cbor_bytes",ISO)],["Handover","DcApiHandover"])
p("C27","The session transcript is always [null, null, handover]",
 "The CBOR bytes and the serde serialization of a session transcript are the three-element array null, null, and the serialization of exactly the handover it was created with; deserialization takes the handover from the third element.",
 ["inputs","programs"],"every handover, also of user-defined types","tests use two handovers",
 [ISO],[("SessionTranscript",ISO)],["SessionTranscript"])
p("C28","JWK thumbprints follow RFC 7638",
 "The thumbprint of a JWK is the SHA-256 of the JSON object with exactly the required members of its key type in lexicographic order without whitespace (EC: crv, kty, x, y; RSA: e, kty, n), with the key's own values, and nothing else in the JWK influences it; a missing or non-string required member, or another key type, is an error.",
 ["inputs"],"every JSON value given as a JWK","tests use three keys",
 [ISO],[("compute_jwk_thumbprint",ISO)],["compute_jwk_thumbprint"])
p("C29","The handover thumbprint names the key the response is encrypted to",
 "The encryption-key thumbprint of a request is the thumbprint of a key from the request's own client_metadata key set that is not reserved for another use, and whenever response encryption would select a key from the same key set, it is that key's. Without a usable key, key set or metadata there is no thumbprint.",
 ["inputs"],"every client_metadata key set","tests use key sets with a single suitable key",
 [ISO,JWE],[("get_encryption_jwk_thumbprint",ISO),("find_encryption_jwk",JWE)],["get_encryption_jwk_thumbprint","find_encryption_jwk"])
p("C30","Encrypted responses use the chosen key's own alg and hold the whole response",
 "Key selection returns the first key of the set whose alg is 'ECDH-ES', crv 'P-256' and use 'enc' or absent, with that key's own alg and kid; building an encrypted response encrypts exactly the token and, when given, the state to that key, with JWE alg from that key, enc the first value the verifier offers (A128GCM when it offers none), and the key's kid when it has one. Building a JWE fails without payload, key or algorithm, for any algorithm other than ECDH-ES, and for a payload that is not an object.",
 ["inputs"],"every key set, token and state","this module is not even compiled by the stable tests",
 [JWE],[("find_encryption_jwk, JweBuilder::build, build_encrypted_response",JWE)],["build_encrypted_response","JweBuilder::build","find_encryption_jwk"])
p("C31","Untrusted input cannot panic the library",
 "The public operations that process data from the other party (parsing and validating requests, the bundled verifications, submitting and parsing responses, fetching and verifying sessions, key selection and thumbprints, constructing clients) contain no reachable panic of their own (unwrap, expect, indexing, slicing, arithmetic, unreachable) that depends on that data: they report failures as errors.",
 ["inputs"],"every input to those operations","a test samples a handful of inputs; panics hide in unusual ones",
 [AR,VR+"mod.rs",VR+"did.rs",VR+"x509_san.rs",VR+"x509_hash.rs",WA,RS,VM,VB,VC,ISO,JWE],[("error propagation with ? everywhere","all")],["public functions returning Result or Option"])
p("C32","Query accessors, defaults and wire names of DCQL queries agree",
 "Every field of a DCQL query object that is set or constructed is the one its getter returns and the one written to JSON under its specification name, and no setter touches another field; absent optional members stay absent. Effective defaults are: holder binding required, multiple not allowed, credential sets required; an explicit value always wins.",
 ["inputs","histories"],"every query object and order of setter calls","tests parse a few example queries",
 [DQ],[("getters/setters",DQ),("serde attributes",DQ)],["DcqlQuery","DcqlCredentialQuery","DcqlCredentialSetQuery","DcqlCredentialClaimsQuery","TrustedAuthoritiesQuery"])
p("C33","Wallet metadata is complete and its typed and JSON views agree",
 "Wallet metadata is created from JSON only if authorization endpoint and supported VP formats are present and well-formed; the values reported by the accessors are the ones in the JSON view at creation and the ones written out. Adding a signing algorithm or prefixes appends exactly those to the existing (or default) list and keeps all other members, and fails without change if the existing list is malformed.",
 ["inputs","histories"],"every metadata object and sequence of additions","tests check the static metadata only",
 [MD,MW],[("TryFrom/From/new/add_*",MD)],["WalletMetadata"])
p("C34","Claim path helpers pick the right path element",
 "For a claims query, the namespace is the first path element if it is a string, the element identifier is the second if it is a string, and the claim name is the last string element; none is reported otherwise.",
 ["inputs"],"every path","tests use three paths",
 [DQ],[("namespace/element_identifier/claim_name",DQ)],["DcqlCredentialClaimsQuery"])
p("C35","The bundled HTTP client forwards requests and responses unchanged",
 "The bundled HTTP client performs exactly the request it is given, once, and returns a response with the status, headers and body bytes it received; any failure of the exchange or of reading the body is an error, never an empty or default response. A client it constructs itself verifies TLS server certificates.",
 ["inputs","fault_sequences"],"every request, response and transport failure","no test runs the bundled client",
 [HU],[("execute",HU+" ReqwestClient")],["AsyncHttpClient for ReqwestClient"])
p("C36","Format support questions are answered from the right entry",
 "A VP-formats object supports a security method for a format only if the entry of exactly that format lists exactly that method, as an algorithm or as a proof type, and a format counts as supported exactly if it has an entry; adding an algorithm or proof type appends to a list of that kind and otherwise changes nothing. The designation of a claim format is the one of its own kind, and formats, designations and payloads are written and read under their names from the specification.",
 ["inputs"],"every formats map, format and method","tests query two formats",
 [MV,MW,CF],[("supports_security_method",MV),("is_claim_format_supported",MW),("add_alg/add_proof_type/designation",CF)],["VpFormats","VpFormatsSupported","ClaimFormatPayload","ClaimFormat"])
p("C37","Client metadata getters read the request's own client_metadata",
 "The client metadata, supported formats, key set, query, state and content-encryption values read from a request or its client_metadata are the parse results of the members with those specification names; absent client_metadata reads as empty only where a default is documented, absent content-encryption values read as exactly A128GCM, and malformed values are errors, never treated as absent. Whether an ID token is requested is answered from the response type.",
 ["inputs"],"every request object","tests read a few well-formed members",
 [AR,PA,MV],[("ClientMetadata::resolve, jwks, vp_formats, encrypted_response_enc_values_supported",PA),("client_metadata, vp_formats, dcql_query, state, is_id_token_requested",AR)],["AuthorizationRequestObject","ClientMetadata"])
p("C38","VP tokens keep their presentations under the right query id",
 "Inserting presentations into a VP token stores exactly those under exactly the given query id, lookup returns exactly what is stored under the id asked for, and length, emptiness and iteration reflect the stored entries; strings and JSON-object presentations become items of the matching kind with unchanged content.",
 ["inputs","histories"],"every id, token and presentation","tests insert one or two presentations",
 [RP],[("VpToken, VpTokenItem",RP)],["VpToken","VpTokenItem"])
p("C39","Verifier configuration is used as given",
 "A verifier is created only if a client, a session store and a submission endpoint were set, and it uses exactly the last ones set; default parameters and by-reference or by-value mode set on the builder are the ones its requests start from, and a parameter set on a request overrides the default of the same name only.",
 ["configurations","histories"],"every sequence of builder calls","the e2e test uses one order of calls",
 [VM,VB],[("VerifierBuilder",VM),("RequestBuilder::new/with_*",VB)],["VerifierBuilder::build","RequestBuilder"])
p("C40","Nonces are random text of the requested length",
 "A random nonce is drawn entirely from the caller's random source, as alphanumeric text of exactly the requested length, and a nonce made from text is that text everywhere it is read.",
 ["inputs"],"every random source and length","tests cannot see where the randomness comes from",
 [PA],[("Nonce::random",PA)],["Nonce"])
p("C41","Request signatures cannot be forged",
 "A request not signed by the holder of the private key belonging to its client identity is never accepted.",
 ["inputs"],"every attacker","cryptographic strength is not a matter of sampled inputs",
 [VR+"did.rs",VR+"x509_san.rs",VR+"x509_hash.rs",VR+"verifier.rs"],[("delegation to p256/ssi","verification")])
p("C42","Serialised data reads back as the same value",
 "For every type of the library and of its frontend crate that can be both written to and read from JSON (requests, responses, queries, formats, tokens, session statuses and outcomes), what a value is written as is accepted by the type's own reader and gives an equal value, and a value that was read, written and read again is unchanged: names, tags, optional members and variants agree in both directions. (A catch-all variant holding the name of a known variant is not such a value; wallet metadata, which keeps its source text, and the CBOR handovers are separate properties.)",
 ["inputs"],"every value of every serialisable type","tests round-trip a few values",
 [AR,RS,DQ,CF,"openid4vp-frontend/src/lib.rs"],[("serde impls, derived or written by hand","all")],["Serialize and Deserialize impls"])
p("C44","A parameter put into an object is the one read from it",
 "For every typed parameter, the JSON value written for it is accepted when the parameter is read and gives an equal value: nothing of it (list entries, their order, keys of a key set, text) is lost, changed or added; and a value that was read, written and read again is unchanged.",
 ["inputs"],"every value of every typed parameter","tests write or read single well-formed values, never both",
 [PA,MV,MW,RP,DQ],[("TryFrom<Json> and Into<Json> of every TypedParameter","parameters")],["TypedParameter implementors"])
p("C43","Concurrent calls on one session leave a consistent status with any store",
 "With any user-supplied session store and any interleaving of fetching, verifying and polling one session, the final status is the one of the last completed verification and progress never goes backwards.",
 ["schedules","histories"],"every interleaving and store implementation","tests are single-threaded",
 [VM,VS],[("get then update, not atomic",VM)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
