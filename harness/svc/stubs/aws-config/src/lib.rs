//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::sync::Arc;
use aws_credential_types::provider::{future, ProvideCredentials, SharedCredentialsProvider};
pub mod ecs { use super::*; #[derive(Debug)] pub struct EcsCredentialsProvider; pub struct Builder; impl EcsCredentialsProvider { pub fn builder() -> Builder { Builder } } impl Builder { pub fn build(self) -> EcsCredentialsProvider { EcsCredentialsProvider } } impl ProvideCredentials for EcsCredentialsProvider { fn provide_credentials<'a>(&'a self) -> future::ProvideCredentials<'a> where Self: 'a { future::ProvideCredentials::ready(Ok(aws_credential_types::Credentials::from_keys("<container>", "<container>", None))) } } }
#[derive(Clone, Debug, Default)] pub struct SdkConfig { pub creds: Option<SharedCredentialsProvider>, pub region: Option<aws_types::region::Region>, pub endpoint: Option<String> }
#[derive(Default)] pub struct ConfigLoader(SdkConfig);
pub fn from_env() -> ConfigLoader { ConfigLoader::default() }
impl ConfigLoader { pub fn credentials_provider(mut self, p: impl ProvideCredentials + 'static) -> Self { self.0.creds = Some(SharedCredentialsProvider::new(p)); self } pub fn region(mut self, r: impl Into<Option<aws_types::region::Region>>) -> Self { self.0.region = r.into(); self } pub fn endpoint_url(mut self, u: impl Into<String>) -> Self { self.0.endpoint = Some(u.into()); self } pub async fn load(self) -> SdkConfig { self.0 } }
#[allow(unused)] fn f(_: Arc<()>) {}
