//! Signatures only (see Cargo.toml). The analysis treats every function here as an opaque external.
#![allow(unused_variables)]
#[derive(Debug, thiserror::Error)]
#[error("josekit")]
pub struct JoseError;

pub type Map = serde_json::Map<String, serde_json::Value>;

pub mod jwk {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct Jwk(Map);
    impl Jwk {
        pub fn new(key_type: &str) -> Self { unimplemented!() }
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Result<Self, JoseError> { unimplemented!() }
        pub fn from_map(map: impl Into<Map>) -> Result<Self, JoseError> { unimplemented!() }
        pub fn key_id(&self) -> Option<&str> { unimplemented!() }
        pub fn set_key_id(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn key_use(&self) -> Option<&str> { unimplemented!() }
        pub fn key_type(&self) -> &str { unimplemented!() }
        pub fn algorithm(&self) -> Option<&str> { unimplemented!() }
        pub fn curve(&self) -> Option<&str> { unimplemented!() }
        pub fn set_key_use(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_algorithm(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_curve(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_parameter(&mut self, key: &str, value: Option<serde_json::Value>) -> Result<(), JoseError> { unimplemented!() }
        pub fn key_operations(&self) -> Option<Vec<&str>> { unimplemented!() }
        pub fn parameter(&self, key: &str) -> Option<&serde_json::Value> { unimplemented!() }
    }
    impl From<Jwk> for Map { fn from(j: Jwk) -> Map { j.0 } }
    impl AsRef<Map> for Jwk { fn as_ref(&self) -> &Map { &self.0 } }
}

pub mod jwe {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct JweHeader(Map);
    impl JweHeader {
        pub fn new() -> Self { unimplemented!() }
        pub fn set_token_type(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_content_type(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_algorithm(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_content_encryption(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_key_id(&mut self, value: impl Into<String>) { unimplemented!() }
        pub fn set_agreement_partyuinfo(&mut self, value: impl AsRef<[u8]>) { unimplemented!() }
        pub fn set_agreement_partyvinfo(&mut self, value: impl AsRef<[u8]>) { unimplemented!() }
        pub fn set_claim(&mut self, key: &str, value: Option<serde_json::Value>) -> Result<(), JoseError> { unimplemented!() }
        pub fn claim(&self, key: &str) -> Option<&serde_json::Value> { unimplemented!() }
        pub fn key_id(&self) -> Option<&str> { unimplemented!() }
        pub fn algorithm(&self) -> Option<&str> { unimplemented!() }
        pub fn content_encryption(&self) -> Option<&str> { unimplemented!() }
        pub fn token_type(&self) -> Option<&str> { unimplemented!() }
        pub fn content_type(&self) -> Option<&str> { unimplemented!() }
        pub fn from_map(map: impl Into<Map>) -> Result<Self, JoseError> { unimplemented!() }
    }
    pub trait JweEncrypter {}
    pub trait JweDecrypter {}
    pub mod alg {
        pub mod ecdh_es {
            use crate::{jwk::Jwk, JoseError};
            use std::marker::PhantomData;
            pub struct EcdhEsJweAlgorithm;
            pub struct EcdhEsJweEncrypter<C>(PhantomData<C>);
            pub struct EcdhEsJweDecrypter<C>(PhantomData<C>);
            impl<C> super::super::JweEncrypter for EcdhEsJweEncrypter<C> {}
            impl<C> super::super::JweDecrypter for EcdhEsJweDecrypter<C> {}
            impl EcdhEsJweAlgorithm {
                pub fn encrypter_from_jwk<C>(&self, jwk: &Jwk) -> Result<EcdhEsJweEncrypter<C>, JoseError> { unimplemented!() }
                pub fn decrypter_from_jwk<C>(&self, jwk: &Jwk) -> Result<EcdhEsJweDecrypter<C>, JoseError> { unimplemented!() }
            }
        }
    }
    pub static ECDH_ES: alg::ecdh_es::EcdhEsJweAlgorithm = alg::ecdh_es::EcdhEsJweAlgorithm;
    pub fn serialize_compact(payload: &[u8], header: &JweHeader, encrypter: &dyn JweEncrypter) -> Result<String, JoseError> { unimplemented!() }
    pub fn deserialize_compact(input: impl AsRef<[u8]>, decrypter: &dyn JweDecrypter) -> Result<(Vec<u8>, JweHeader), JoseError> { unimplemented!() }
}

pub mod jwt {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct JwtPayload(Map);
    impl JwtPayload {
        pub fn new() -> Self { unimplemented!() }
        pub fn from_map(map: impl Into<Map>) -> Result<Self, JoseError> { unimplemented!() }
        pub fn set_claim(&mut self, key: &str, value: Option<serde_json::Value>) -> Result<(), JoseError> { unimplemented!() }
        pub fn claim(&self, key: &str) -> Option<&serde_json::Value> { unimplemented!() }
    }
    pub fn encode_with_encrypter(payload: &JwtPayload, header: &jwe::JweHeader, encrypter: &dyn jwe::JweEncrypter) -> Result<String, JoseError> { unimplemented!() }
}
