//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::{future::Future, path::Path, pin::Pin, sync::Arc};
#[derive(Debug)] pub enum Error { NoAuthMethod(Box<Error>, Box<Error>, Box<Error>), Str(&'static str) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("gcp auth") } } impl std::error::Error for Error {}
pub struct Token(String); impl Token { pub fn as_str(&self) -> &str { &self.0 } }
pub trait TokenProvider: Send + Sync { fn token<'a>(&'a self, s: &'a [&'a str]) -> Pin<Box<dyn Future<Output = Result<Arc<Token>, Error>> + Send + 'a>>; }
pub struct CustomServiceAccount;
impl CustomServiceAccount { pub fn from_file<T: AsRef<Path>>(_: T) -> Result<Self, Error> { Ok(Self) } }
impl TokenProvider for CustomServiceAccount { fn token<'a>(&'a self, _: &'a [&'a str]) -> Pin<Box<dyn Future<Output = Result<Arc<Token>, Error>> + Send + 'a>> { Box::pin(async { Ok(Arc::new(Token("t".into()))) }) } }
pub async fn provider() -> Result<Arc<dyn TokenProvider>, Error> { Ok(Arc::new(CustomServiceAccount)) }
