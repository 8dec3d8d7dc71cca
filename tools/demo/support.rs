#![allow(dead_code, unused_imports)]
// A wallet whose hooks accept everything and record what they were given, over a scripted HTTP client.
use std::sync::{Arc, Mutex};

use anyhow::{bail, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::core::authorization_request::verification::RequestVerifier;
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::wallet::Wallet;
use serde_json::{json, Value};
use url::Url;

#[derive(Clone, Default)]
struct Http {
    status: u16,
    body: Vec<u8>,
    seen: Arc<Mutex<Vec<Request<Vec<u8>>>>>,
}

#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.seen.lock().unwrap().push(request);
        Ok(Response::builder().status(self.status).body(self.body.clone())?)
    }
}

struct W {
    md: WalletMetadata,
    http: Http,
    calls: Mutex<Vec<(String, Option<String>)>>,
    refuse: Option<&'static str>,
}

impl W {
    fn new() -> Self {
        let mut md = WalletMetadata::openid4vp_scheme_static();
        md.insert(openid4vp::core::metadata::parameters::wallet::ClientIdPrefixesSupported(
            ["redirect_uri", "x509_san_dns", "x509_hash", "decentralized_identifier", "verifier_attestation", "openid_federation", "custom"]
                .iter()
                .map(|s| openid4vp::core::authorization_request::parameters::ClientIdScheme(s.to_string()))
                .collect(),
        ));
        W { md, http: Http { status: 200, ..Default::default() }, calls: Mutex::new(vec![]), refuse: None }
    }
    fn called(&self, n: &str, jwt: Option<String>) -> Result<()> {
        self.calls.lock().unwrap().push((n.to_string(), jwt));
        if self.refuse == Some(n) {
            bail!("refused")
        }
        Ok(())
    }
}

#[async_trait]
impl RequestVerifier for W {
    async fn decentralized_identifier(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("decentralized_identifier", j) }
    async fn openid_federation(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("openid_federation", j) }
    async fn preregistered(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("preregistered", j) }
    async fn redirect_uri(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("redirect_uri", j) }
    async fn verifier_attestation(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("verifier_attestation", j) }
    async fn x509_san_dns(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("x509_san_dns", j) }
    async fn x509_hash(&self, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called("x509_hash", j) }
    async fn other(&self, p: &str, _: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.called(&format!("other:{p}"), j) }
}

#[async_trait]
impl Wallet for W {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata { &self.md }
    fn http_client(&self) -> &Http { &self.http }
}

fn b64(v: &Value) -> String { BASE64_URL_SAFE_NO_PAD.encode(v.to_string()) }

/// a compact JWS with an empty-ish signature
fn jwt(header: Value, claims: Value) -> String { format!("{}.{}.{}", b64(&header), b64(&claims), BASE64_URL_SAFE_NO_PAD.encode("sig")) }

fn typ() -> Value { json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}) }

fn claims(client_id: &str) -> Value {
    json!({"client_id": client_id, "response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://rp.example/cb",
           "nonce": "n-0S6_WzA2Mj-0123456789", "client_metadata": {"vp_formats_supported": {}}, "dcql_query": {"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {}}]}})
}

fn by_value(outer: Option<&str>, jwt: String) -> AuthorizationRequest {
    AuthorizationRequest { client_id: outer.map(str::to_string), request_indirection: RequestIndirection::ByValue { request: jwt } }
}

fn obj(v: Value) -> UntypedObject { serde_json::from_value(v).unwrap() }

// ---------------------------------------------------------------------------------------------------------------
use openid4vp::core::authorization_request::parameters::{ClientId, ClientIdScheme};
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::verifier::client::Client;
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use openid4vp::verifier::Verifier;
use uuid::Uuid;

#[derive(Debug)]
struct Cl(ClientId, Mutex<Vec<Value>>);

#[async_trait]
impl Client for Cl {
    fn id(&self) -> &ClientId { &self.0 }
    fn prefix(&self) -> ClientIdScheme { ClientIdScheme("custom".into()) }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        let v = serde_json::to_value(body)?;
        self.1.lock().unwrap().push(v.clone());
        Ok(jwt(typ(), v))
    }
}

async fn verifier(store: Arc<MemoryStore>, by_ref: bool) -> Verifier {
    let b = Verifier::builder()
        .with_client(Arc::new(Cl(ClientId("custom:me".into()), Mutex::new(vec![]))))
        .with_session_store(store)
        .with_submission_endpoint("https://rp.example/submit".parse().unwrap())
        .with_default_request_parameter(openid4vp::core::authorization_request::parameters::ResponseType::VpToken)
        .with_default_request_parameter(openid4vp::core::authorization_request::parameters::ResponseMode::DirectPost)
        .with_default_request_parameter(openid4vp::core::authorization_request::parameters::Nonce::from("n-0S6_WzA2Mj-0123456789"))
        .with_default_request_parameter(openid4vp::core::authorization_request::parameters::ClientMetadata(obj(json!({"vp_formats_supported": {}}))));
    let b = if by_ref { b.by_reference("https://rp.example/requests".parse().unwrap()) } else { b };
    b.build().await.unwrap()
}

fn query() -> DcqlQuery {
    serde_json::from_value(json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "org.iso.18013.5.1.mDL"}}]})).unwrap()
}

fn wallet_md() -> WalletMetadata { W::new().md }

// ---------------------------------------------------------------------------------------------------------------
