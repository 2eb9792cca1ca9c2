//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::{error::Error as StdError, fmt, sync::{Arc, Mutex, OnceLock}, time::Duration};
pub use bytes::Bytes; pub use http::{Method, StatusCode}; pub use url::Url;
pub mod header { pub use http::header::*; pub use http::HeaderMap; }
use header::{HeaderMap, HeaderName, HeaderValue};
/// The transport of the harness: every request of every client goes to the installed handler.
pub mod vp { use super::*;
    #[derive(Clone)] pub struct Reply { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<std::result::Result<Vec<u8>, String>>, pub fail: Option<String>, pub delay: Duration }
    impl Reply { pub fn ok(b: &[u8]) -> Self { Self::status(200, b) } pub fn status(s: u16, b: &[u8]) -> Self { Reply { status: s, headers: vec![], body: vec![Ok(b.to_vec())], fail: None, delay: Duration::ZERO } } pub fn header(mut self, k: &str, v: &str) -> Self { self.headers.push((k.into(), v.into())); self } pub fn failing(m: &str) -> Self { let mut r = Self::status(0, b""); r.fail = Some(m.into()); r } }
    pub type Handler = Arc<dyn Fn(&Request, &Client) -> Reply + Send + Sync>;
    pub(crate) static H: OnceLock<Mutex<Option<Handler>>> = OnceLock::new();
    pub fn install(h: Handler) { *H.get_or_init(Default::default).lock().unwrap() = Some(h); }
}
pub struct Error(String, Option<Url>);
impl Error { pub fn is_timeout(&self) -> bool { false } pub fn is_connect(&self) -> bool { true } pub fn is_builder(&self) -> bool { false } pub fn url(&self) -> Option<&Url> { self.1.as_ref() } pub fn status(&self) -> Option<StatusCode> { None } pub fn without_url(self) -> Self { Self(self.0, None) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "reqwest::Error({:?})", self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl StdError for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Body(Option<Bytes>);
impl Body { pub fn wrap_stream<S>(_: S) -> Self { Body(None) } pub fn as_bytes(&self) -> Option<&[u8]> { self.0.as_deref() } }
impl From<String> for Body { fn from(s: String) -> Self { Body(Some(s.into())) } } impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Self { Body(Some(s.into())) } } impl From<&'static str> for Body { fn from(s: &'static str) -> Self { Body(Some(s.into())) } }
pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { Ok(self) } } impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error(e.to_string(), None)) } } impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } } impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body>, timeout: Option<Duration> }
impl Request { pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: HeaderMap::new(), body: None, timeout: None } } pub fn method(&self) -> &Method { &self.method } pub fn url(&self) -> &Url { &self.url } pub fn url_mut(&mut self) -> &mut Url { &mut self.url } pub fn headers(&self) -> &HeaderMap { &self.headers } pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers } pub fn body(&self) -> Option<&Body> { self.body.as_ref() } pub fn timeout(&self) -> Option<&Duration> { self.timeout.as_ref() }
    pub fn try_clone(&self) -> Option<Self> { let body = match &self.body { None => None, Some(Body(None)) => return None, Some(Body(b)) => Some(Body(b.clone())) }; Some(Request { method: self.method.clone(), url: self.url.clone(), headers: self.headers.clone(), body, timeout: self.timeout }) } }
#[derive(Clone)] pub struct Client(Arc<ClientBuilder>);
impl fmt::Debug for Client { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Client") } }
impl Default for Client { fn default() -> Self { Self::new() } }
impl Client { pub fn new() -> Self { ClientBuilder::new().build().unwrap() } pub fn builder() -> ClientBuilder { ClientBuilder::new() } pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder { RequestBuilder { client: self.clone(), request: u.into_url().map(|u| Request::new(m, u)) } } pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::GET, u) } pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::POST, u) } pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::HEAD, u) }
    pub fn vp_ip_filter(&self) -> Option<fn(std::net::IpAddr) -> bool> { self.0.filter } pub fn vp_accepts_invalid_certs(&self) -> bool { self.0.invalid } pub fn vp_redirect(&self) -> Option<&redirect::Policy> { self.0.redirect.as_ref() }
    pub async fn execute(&self, r: Request) -> Result<Response> { let h = vp::H.get_or_init(Default::default).lock().unwrap().clone(); let Some(h) = h else { return Err(Error("error sending request".into(), Some(r.url))) }; let reply = h(&r, self); if !reply.delay.is_zero() { tokio::time::sleep(reply.delay).await; } else { tokio::task::yield_now().await; } if let Some(m) = reply.fail { return Err(Error(m, Some(r.url))); } let mut headers = HeaderMap::new(); for (k, v) in &reply.headers { headers.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_str(v).unwrap()); } Ok(Response { status: StatusCode::from_u16(reply.status).unwrap(), headers, url: r.url, body: reply.body }) } }
#[derive(Default)] pub struct ClientBuilder { filter: Option<fn(std::net::IpAddr) -> bool>, invalid: bool, redirect: Option<redirect::Policy> }
impl ClientBuilder { pub fn new() -> Self { Self::default() } pub fn gzip(self, _: bool) -> Self { self } pub fn brotli(self, _: bool) -> Self { self } pub fn deflate(self, _: bool) -> Self { self } pub fn hickory_dns(self, _: bool) -> Self { self } pub fn trust_dns(self, _: bool) -> Self { self } pub fn connect_timeout(self, _: Duration) -> Self { self } pub fn read_timeout(self, _: Duration) -> Self { self } pub fn timeout(self, _: Duration) -> Self { self } pub fn pool_idle_timeout<D>(self, _: D) -> Self { self } pub fn danger_accept_invalid_certs(mut self, b: bool) -> Self { self.invalid = b; self } pub fn redirect(mut self, p: redirect::Policy) -> Self { self.redirect = Some(p); self } pub fn ip_filter(mut self, f: fn(std::net::IpAddr) -> bool) -> Self { self.filter = Some(f); self } pub fn user_agent<V>(self, _: V) -> Self { self } pub fn build(self) -> Result<Client> { Ok(Client(Arc::new(self))) } }
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
    pub fn header<K, V>(mut self, k: K, v: V) -> Self where HeaderName: TryFrom<K>, HeaderValue: TryFrom<V> { if let Ok(r) = &mut self.request { if let (Ok(k), Ok(v)) = (HeaderName::try_from(k), HeaderValue::try_from(v)) { r.headers.append(k, v); return self; } } else { return self; } self.request = Err(Error("builder error".into(), None)); self }
    pub fn headers(mut self, h: HeaderMap) -> Self { if let Ok(r) = &mut self.request { r.headers.extend(h); } self } pub fn bearer_auth<T: fmt::Display>(self, t: T) -> Self { self.header("authorization", format!("Bearer {t}")) } pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, u: U, _: Option<P>) -> Self { self.header("authorization", format!("Basic {u}")) } pub fn body<T: Into<Body>>(mut self, b: T) -> Self { if let Ok(r) = &mut self.request { r.body = Some(b.into()); } self } pub fn form<T: serde::Serialize + ?Sized>(self, t: &T) -> Self { self.body(serde_json::to_string(t).unwrap()) } pub fn json<T: serde::Serialize + ?Sized>(self, t: &T) -> Self { self.body(serde_json::to_string(t).unwrap()) } pub fn query<T: serde::Serialize + ?Sized>(mut self, t: &T) -> Self { if let (Ok(r), serde_json::Value::Array(a)) = (&mut self.request, serde_json::to_value(t).unwrap()) { for p in a { if let (Some(k), Some(v)) = (p[0].as_str(), p[1].as_str()) { r.url.query_pairs_mut().append_pair(k, v); } } } self } pub fn timeout(mut self, d: Duration) -> Self { if let Ok(r) = &mut self.request { r.timeout = Some(d); } self } pub fn build(self) -> Result<Request> { self.request } pub fn build_split(self) -> (Client, Result<Request>) { (self.client, self.request) } pub fn try_clone(&self) -> Option<Self> { Some(RequestBuilder { client: self.client.clone(), request: Ok(self.request.as_ref().ok()?.try_clone()?) }) } pub async fn send(self) -> Result<Response> { let r = self.request?; self.client.execute(r).await } }
#[derive(Debug)] pub struct Response { status: StatusCode, headers: HeaderMap, url: Url, body: Vec<std::result::Result<Vec<u8>, String>> }
impl Response { pub fn status(&self) -> StatusCode { self.status } pub fn headers(&self) -> &HeaderMap { &self.headers } pub fn url(&self) -> &Url { &self.url } pub fn content_length(&self) -> Option<u64> { self.headers.get(header::CONTENT_LENGTH).and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()) } pub fn remote_addr(&self) -> Option<std::net::SocketAddr> { None }
    pub fn bytes_stream(self) -> impl futures::Stream<Item = Result<Bytes>> + Send + Unpin { futures::stream::iter(self.body.into_iter().map(|x| x.map(Bytes::from).map_err(|e| Error(e, None)))) }
    pub async fn bytes(self) -> Result<Bytes> { let mut v = vec![]; for b in self.body { v.extend(b.map_err(|e| Error(e, None))?); } Ok(v.into()) } pub async fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned()) } pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.bytes().await?).map_err(|e| Error(e.to_string(), None)) }
    pub fn error_for_status(self) -> Result<Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error(format!("HTTP status {}", self.status), Some(self.url))) } else { Ok(self) } } pub fn error_for_status_ref(&self) -> Result<&Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error(format!("HTTP status {}", self.status), Some(self.url.clone()))) } else { Ok(self) } } }
impl<T: Into<Body>> From<http::Response<T>> for Response { fn from(r: http::Response<T>) -> Self { let (p, b) = r.into_parts(); Response { status: p.status, headers: p.headers, url: Url::parse("http://localhost/").unwrap(), body: vec![Ok(b.into().0.unwrap_or_default().to_vec())] } } }
pub mod redirect { use super::*;
    #[derive(Debug, PartialEq)] pub enum Action { Follow, Stop, Error(String) }
    pub struct Attempt<'a> { pub vp_status: StatusCode, pub vp_next: &'a Url, pub vp_previous: &'a [Url] }
    impl<'a> Attempt<'a> { pub fn status(&self) -> StatusCode { self.vp_status } pub fn url(&self) -> &Url { self.vp_next } pub fn previous(&self) -> &[Url] { self.vp_previous } pub fn follow(self) -> Action { Action::Follow } pub fn stop(self) -> Action { Action::Stop } pub fn error<E: ToString>(self, e: E) -> Action { Action::Error(e.to_string()) } }
    pub struct Policy(Option<Box<dyn Fn(Attempt) -> Action + Send + Sync>>);
    impl Policy { pub fn custom<T: Fn(Attempt) -> Action + Send + Sync + 'static>(t: T) -> Self { Policy(Some(Box::new(t))) } pub fn none() -> Self { Self::custom(|a| a.stop()) } pub fn limited(n: usize) -> Self { Self::custom(move |a| if a.previous().len() > n { a.error("too many redirects") } else { a.follow() }) } pub fn redirect(&self, a: Attempt) -> Action { match &self.0 { Some(f) => f(a), None => if a.previous().len() > 10 { a.error("too many redirects") } else { a.follow() } } } }
    impl Default for Policy { fn default() -> Self { Policy(None) } } }
