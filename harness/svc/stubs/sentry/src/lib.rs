//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::{collections::BTreeMap, future::Future, str::FromStr, sync::Arc};
pub type Value = serde_json::Value;
#[derive(Clone, Debug, Default)] pub struct Scope;
impl Scope { pub fn set_tag<V: ToString>(&mut self, _: &str, _: V) {} pub fn set_extra(&mut self, _: &str, _: Value) {} pub fn set_context<C: Into<protocol::Context>>(&mut self, _: &str, _: C) {} pub fn get_span(&self) -> Option<TransactionOrSpan> { None } pub fn set_span(&mut self, _: Option<TransactionOrSpan>) {} pub fn set_transaction(&mut self, _: Option<&str>) {} pub fn set_fingerprint(&mut self, _: Option<&[&str]>) {} pub fn clear(&mut self) {} pub fn remove_tag(&mut self, _: &str) {} }
#[derive(Clone, Debug, Default)] pub struct TransactionOrSpan;
impl TransactionOrSpan { pub fn iter_headers(&self) -> std::vec::IntoIter<(&'static str, String)> { vec![].into_iter() } pub fn finish(self) {} pub fn set_status(&self, _: protocol::SpanStatus) {} pub fn start_child(&self, _: &str, _: &str) -> Self { Self } }
pub type Transaction = TransactionOrSpan; pub type Span = TransactionOrSpan;
pub struct TransactionContext;
impl TransactionContext { pub fn new(_: &str, _: &str) -> Self { Self } pub fn continue_from_span(_: &str, _: &str, _: Option<TransactionOrSpan>) -> Self { Self } }
pub fn start_transaction(_: TransactionContext) -> Transaction { TransactionOrSpan }
pub fn configure_scope<F: FnOnce(&mut Scope) -> R, R>(f: F) -> R { f(&mut Scope) }
pub fn with_scope<C: FnOnce(&mut Scope), F: FnOnce() -> R, R>(c: C, f: F) -> R { c(&mut Scope); f() }
#[derive(Clone, Copy, Debug, Default)] pub struct Uuid;
pub fn capture_message(_: &str, _: Level) -> Uuid { Uuid }
pub fn capture_error<E: std::error::Error + ?Sized>(_: &E) -> Uuid { Uuid }
#[derive(Clone, Copy, Debug)] pub enum Level { Debug, Info, Warning, Error, Fatal }
#[derive(Clone, Debug, Default)] pub struct Hub; pub struct ScopeGuard;
impl Hub { pub fn current() -> Arc<Hub> { Arc::new(Hub) } pub fn new_from_top<T: AsRef<Hub>>(_: T) -> Hub { Hub } pub fn push_scope(&self) -> ScopeGuard { ScopeGuard } pub fn run<F: FnOnce() -> R, R>(_: Arc<Hub>, f: F) -> R { f() } pub fn configure_scope<F: FnOnce(&mut Scope) -> R, R>(&self, f: F) -> R { f(&mut Scope) } }
impl AsRef<Hub> for Hub { fn as_ref(&self) -> &Hub { self } }
pub trait SentryFutureExt: Sized { fn bind_hub<H: Into<Arc<Hub>>>(self, _: H) -> Self { self } }
impl<F: Future> SentryFutureExt for F {}
pub mod protocol { use super::*; #[derive(Clone, Debug)] pub enum Context { Other(BTreeMap<String, Value>) } impl From<BTreeMap<String, Value>> for Context { fn from(m: BTreeMap<String, Value>) -> Self { Context::Other(m) } } #[derive(Clone, Copy, Debug)] pub enum SpanStatus { Ok, InternalError } #[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)] pub struct Map; }
pub mod types { use super::*; pub use debugid::DebugId; #[derive(Clone, Debug, PartialEq, Eq)] pub struct Dsn(String); #[derive(Debug)] pub struct ParseDsnError; impl std::fmt::Display for ParseDsnError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("dsn") } } impl FromStr for Dsn { type Err = ParseDsnError; fn from_str(s: &str) -> Result<Self, ParseDsnError> { Ok(Dsn(s.into())) } }
 impl<'de> serde::Deserialize<'de> for Dsn { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Dsn(String::deserialize(d)?)) } } impl serde::Serialize for Dsn { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0) } } }
