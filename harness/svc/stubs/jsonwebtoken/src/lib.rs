//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]

pub mod errors { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("InvalidKeyFormat") } } impl std::error::Error for Error {} }
pub enum Algorithm { RS256 }
pub struct Header; impl Header { pub fn new(_: Algorithm) -> Self { Header } }
pub struct EncodingKey(String);
impl EncodingKey { pub fn from_rsa_pem(b: &[u8]) -> Result<Self, errors::Error> { Ok(EncodingKey(String::from_utf8_lossy(b).into_owned())) } }
/// "signs" a claim by writing the key and the claims in clear
pub fn encode<T: serde::Serialize>(_: &Header, c: &T, k: &EncodingKey) -> Result<String, errors::Error> { Ok(format!("{}|{}", k.0, serde_json::to_string(c).map_err(|_| errors::Error)?)) }
