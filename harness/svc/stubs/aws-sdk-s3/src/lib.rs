//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::{fmt, pin::Pin, sync::{Arc, Mutex, OnceLock}, task::{Context, Poll}};
/// What the service asks for, and the answer of the harness.
pub mod vp { use super::*;
    #[derive(Clone, Debug)] pub enum Answer { Body(Vec<u8>), Service { status: u16, code: Option<&'static str>, message: &'static str }, Timeout, Dispatch }
    pub type Handler = Arc<dyn Fn(&aws_config::SdkConfig, &str, &str) -> Answer + Send + Sync>;
    pub(crate) static H: OnceLock<Mutex<Option<Handler>>> = OnceLock::new();
    pub fn install(h: Handler) { *H.get_or_init(Default::default).lock().unwrap() = Some(h); } }
#[derive(Clone, Debug)] pub struct Client(pub aws_config::SdkConfig);
impl Client { pub fn new(c: &aws_config::SdkConfig) -> Self { Client(c.clone()) } pub fn get_object(&self) -> GetObject { GetObject { c: self.clone(), b: String::new(), k: String::new() } } }
pub struct GetObject { c: Client, b: String, k: String }
pub struct Output { pub body: Body, pub content_length: Option<i64> }
pub struct Body(Option<bytes::Bytes>);
impl Body { pub fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<bytes::Bytes, StreamError>>> { Poll::Ready(self.get_mut().0.take().map(Ok)) } }
#[derive(Debug)] pub struct StreamError; impl fmt::Display for StreamError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("stream") } } impl std::error::Error for StreamError {}
impl GetObject { pub fn bucket(mut self, b: impl Into<String>) -> Self { self.b = b.into(); self } pub fn key(mut self, b: impl Into<String>) -> Self { self.k = b.into(); self } pub fn version_id(self, _: impl Into<String>) -> Self { self } pub async fn send(self) -> Result<Output, error::SdkError<GetObjectError>> { use vp::Answer::*; let h = vp::H.get_or_init(Default::default).lock().unwrap().clone(); let a = h.map_or(Dispatch, |h| h(&self.c.0, &self.b, &self.k)); match a { Body(b) => Ok(Output { content_length: Some(b.len() as i64), body: aws_body(b) }), Service { status, code, message } => Err(error::SdkError::ServiceError(error::ServiceError { e: GetObjectError { code, message }, r: Raw(status) })), Timeout => Err(error::SdkError::TimeoutError(error::TimeoutError)), Dispatch => Err(error::SdkError::DispatchFailure(error::DispatchFailure)) } } }
fn aws_body(b: Vec<u8>) -> Body { Body(Some(b.into())) }

#[derive(Debug, Clone)] pub struct GetObjectError { code: Option<&'static str>, message: &'static str }
impl fmt::Display for GetObjectError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("service error") } } impl std::error::Error for GetObjectError {}
#[derive(Debug)] pub struct Raw(u16); impl Raw { pub fn status(&self) -> Status { Status(self.0) } } #[derive(Clone, Copy, Debug, PartialEq)] pub struct Status(u16); impl Status { pub fn as_u16(&self) -> u16 { self.0 } }
pub mod error { use super::*;
    pub trait ProvideErrorMetadata { fn code(&self) -> Option<&str>; fn message(&self) -> Option<&str>; }
    impl ProvideErrorMetadata for GetObjectError { fn code(&self) -> Option<&str> { self.code } fn message(&self) -> Option<&str> { Some(self.message) } }
    impl ProvideErrorMetadata for Error { fn code(&self) -> Option<&str> { match self { Error::Unhandled(e) => e.code, Error::NoSuchKey(_) => Some("NoSuchKey"), Error::NoSuchBucket(_) => Some("NoSuchBucket"), Error::NotFound(_) => Some("NotFound"), _ => None } } fn message(&self) -> Option<&str> { None } }
    #[derive(Debug)] pub struct ServiceError { pub(crate) e: GetObjectError, pub(crate) r: Raw } impl ServiceError { pub fn raw(&self) -> &Raw { &self.r } pub fn err(&self) -> &GetObjectError { &self.e } }
    #[derive(Debug)] pub struct TimeoutError; #[derive(Debug)] pub struct DispatchFailure; #[derive(Debug)] pub struct ConstructionFailure; #[derive(Debug)] pub struct ResponseError;
    #[derive(Debug)] #[non_exhaustive] pub enum SdkError<E> { ConstructionFailure(ConstructionFailure), TimeoutError(TimeoutError), DispatchFailure(DispatchFailure), ResponseError(ResponseError), ServiceError(ServiceError), #[doc(hidden)] P(std::marker::PhantomData<E>) }
    impl<E: fmt::Debug> fmt::Display for SdkError<E> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(match self { SdkError::ServiceError(_) => "service error", SdkError::TimeoutError(_) => "request has timed out", _ => "dispatch failure" }) } } impl<E: fmt::Debug> std::error::Error for SdkError<E> {} }
#[derive(Debug)] pub struct NoSuchKey; #[derive(Debug)] pub struct NoSuchBucket; #[derive(Debug)] pub struct NotFound;
#[derive(Debug)] #[non_exhaustive] pub enum Error { NoSuchKey(NoSuchKey), NoSuchBucket(NoSuchBucket), NotFound(NotFound), Unhandled(GetObjectError) }
impl From<error::SdkError<GetObjectError>> for Error { fn from(e: error::SdkError<GetObjectError>) -> Self { match e { error::SdkError::ServiceError(s) => match s.e.code { Some("NoSuchKey") => Error::NoSuchKey(NoSuchKey), Some("NoSuchBucket") => Error::NoSuchBucket(NoSuchBucket), _ => Error::Unhandled(s.e) }, _ => Error::Unhandled(GetObjectError { code: None, message: "" }) } } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("s3 error") } } impl std::error::Error for Error {}
