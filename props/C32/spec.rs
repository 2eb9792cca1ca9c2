use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
pub enum CacheError { NotFound, PermissionDenied(String), Timeout(Duration), DownloadError(String), InternalError, Other }
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[derive(Clone, Copy)] pub struct Duration { s: u64 }
impl Duration { #[verifier::external_body] pub fn from_secs(s: u64) -> Duration { unimplemented!() } }
use std::sync::Arc;
#[verifier::external_body] pub fn vp_err() -> CacheError { unimplemented!() }

// ---- addresses (the url crate, assumed) -----------------------------------------------------------------------
#[verifier::external_body] pub struct Url { u: u8 }
impl Url {
    /// the address up to its query, the parameters of the query, and the whole text
    pub uninterp spec fn base(&self) -> Str;
    pub uninterp spec fn pairs(&self) -> Seq<(Str, Str)>;
    pub uninterp spec fn text(&self) -> Str;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn query_pairs_mut(&mut self) -> (r: &mut Url) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn append_pair(&mut self, k: &str, v: &str) -> (r: &mut Url) ensures r.base() == old(self).base(), r.pairs() == old(self).pairs().push((k@, v@)), *final(self) == *final(r) { unimplemented!() }
}

// ---- the property -----------------------------------------------------------------------------------------------
/// addresses below a source's own one: with other parameters, or longer
pub open spec fn own(u: Url, s: SentrySourceConfig) -> bool { u.base() == s.url.base() || has_prefix(u.text(), s.url.text()) }
/// a token may be sent to an address; nothing says so but what is required of a source below
pub uninterp spec fn entitled(token: Str, to: Url) -> bool;
pub open spec fn source_ok(s: SentrySourceConfig) -> bool { forall|u: Url| own(u, s) ==> #[trigger] entitled(s.token@, u) }
/// a file asks for credentials only if it is its source's
impl SentryRemoteFile { pub closed spec fn wf(&self) -> bool { self.use_credentials ==> own(self.url, *self.source) } pub closed spec fn at(&self) -> Url { self.url } pub closed spec fn with_token(&self) -> bool { self.use_credentials } }
pub open spec fn all_own(v: Seq<RemoteFile>, s: SentrySourceConfig) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches RemoteFile::Sentry(f) && f.wf() && *f.source == s && f.with_token()) }

// ---- requests (reqwest, assumed) ---------------------------------------------------------------------------------
#[verifier::external_body] #[derive(Clone, Copy)] pub struct HeaderName { s: u8 }
pub struct BadHeader {}
pub uninterp spec fn header_name(s: Str) -> Option<Str>;
impl HeaderName { pub uninterp spec fn t(&self) -> Str; #[verifier::external_body] pub fn from_bytes(b: Raw) -> (r: Result<HeaderName, BadHeader>) ensures match r { Ok(h) => header_name(b.t@) == Some(h.t()), Err(_) => header_name(b.t@) is None } { unimplemented!() } }
pub struct Raw { pub t: Ghost<Str> }
pub trait VpRaw { fn vp_raw(&self) -> Raw; }
impl VpRaw for String { #[verifier::external_body] fn vp_raw(&self) -> (r: Raw) ensures r.t@ == self@ { unimplemented!() } }
pub mod header { use vstd::prelude::*; verus! { pub const USER_AGENT: &'static str = "user-agent"; } pub use super::HeaderName; }
pub const USER_AGENT: &'static str = "symbolicator";
pub trait VpName { spec fn n(&self) -> Str; }
impl VpName for HeaderName { open spec fn n(&self) -> Str { self.t() } }
impl VpName for &str { open spec fn n(&self) -> Str { self@ } }
pub trait VpText { spec fn tx(&self) -> Str; }
impl VpText for &str { open spec fn tx(&self) -> Str { self@ } }
impl VpText for String { open spec fn tx(&self) -> Str { self@ } }
pub ghost struct Asked { pub by: int, pub to: Url, pub token: Option<Str>, pub headers: Seq<(Str, Str)> }
/// the answer to a request, and how it is read
pub uninterp spec fn answer(q: Asked) -> int;
pub uninterp spec fn says<T>(a: int, t: T) -> bool;
pub uninterp spec fn stored(q: Asked, r: CacheContents) -> bool;
#[verifier::external_body] pub struct Client { c: u8 }
impl Client { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn clone(&self) -> (r: Client) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, u: Url) -> (r: RequestBuilder) ensures r.q() == (Asked { by: self.id(), to: u, token: None, headers: seq![] }) { unimplemented!() } }
#[verifier::external_body] pub struct RequestBuilder { c: u8 }
impl RequestBuilder {
    pub uninterp spec fn q(&self) -> Asked;
    /// what may be sent
    pub open spec fn allowed(&self) -> bool { self.q().token matches Some(t) ==> entitled(t, self.q().to) }
    #[verifier::external_body] pub fn bearer_auth(self, t: &String) -> (r: Self) ensures r.q() == (Asked { token: Some(t@), ..self.q() }) { unimplemented!() }
    #[verifier::external_body] pub fn header<K: VpName, V: VpText>(self, k: K, v: V) -> (r: Self)
        ensures r.q() == (if k.n() == "authorization"@ { Asked { token: Some(v.tx()), ..self.q() } } else { Asked { headers: self.q().headers.push((k.n(), v.tx())), ..self.q() } }) { unimplemented!() }
    #[verifier::external_body] pub fn send(self) -> (r: Result<Response, RqError>) requires self.allowed() ensures r matches Ok(x) ==> x.a() == answer(self.q()) { unimplemented!() }
}
#[verifier::external_body] pub struct RqError { c: u8 }
impl vstd::std_specs::convert::FromSpecImpl<RqError> for CacheError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: RqError) -> CacheError; }
impl From<RqError> for CacheError { #[verifier::external_body] fn from(e: RqError) -> CacheError { unimplemented!() } }
#[verifier::external_body] pub struct Response { c: u8 }
#[derive(Clone, Copy)] pub struct StatusCode { pub c: u16 }
impl StatusCode { #[verifier::external_body] pub fn is_success(&self) -> bool { unimplemented!() } #[verifier::external_body] pub fn vp_to_string(&self) -> String { unimplemented!() } }
impl Response { pub uninterp spec fn a(&self) -> int; #[verifier::external_body] pub fn status(&self) -> StatusCode { unimplemented!() }
    #[verifier::external_body] pub fn json<T>(self) -> (r: Result<T, RqError>) ensures r matches Ok(x) ==> says(self.a(), x) { unimplemented!() } }
pub struct Dest {}
#[derive(Clone, Copy)] pub struct DownloadTimeouts {}
/// C13, C15
#[verifier::external_body] pub fn download_reqwest(n: &str, b: RequestBuilder, t: &DownloadTimeouts, d: Dest) -> (r: CacheContents) requires b.allowed() ensures stored(b.q(), r) { unimplemented!() }

// ---- Sentry ---------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct SourceId { s: u8 }
pub struct SentryFileId(pub String);
impl SentryFileId { #[verifier::external_body] pub fn clone(&self) -> (r: SentryFileId) ensures r.0@ == self.0@ { unimplemented!() } }
//@item crates/symbolicator-sources/src/sources/sentry.rs SentrySourceConfig derive=
//@item crates/symbolicator-sources/src/sources/sentry.rs SentryRemoteFile derive=
pub enum RemoteFile { Sentry(SentryRemoteFile), Other }
impl SentryRemoteFile {
    pub fn vp_into(self) -> (r: RemoteFile) ensures r == RemoteFile::Sentry(self) { RemoteFile::Sentry(self) }
//@fn crates/symbolicator-sources/src/sources/sentry.rs SentryRemoteFile::new
//@sub? Option < Url > ==> Option < Url >
//@ret r
//@spec
    requires use_credentials ==> (match url { Some(u) => own(u, *source), None => true })
    ensures r.wf(), r.source == source, r.with_token() == use_credentials, r.file_id == file_id,
        match url { Some(u) => r.at() == u, None => r.at().base() == source.url.base() && r.at().pairs() == source.url.pairs().push(("id"@, file_id.0@)) }
//@end
//@fn crates/symbolicator-sources/src/sources/sentry.rs SentryRemoteFile::url
//@ret r
//@spec
    ensures r == self.at()
//@end
//@fn crates/symbolicator-sources/src/sources/sentry.rs SentryRemoteFile::use_credentials
//@ret r
//@spec
    ensures r == self.with_token()
//@end
}
//@fn crates/symbolicator-js/src/api_lookup.rs make_remote_file
//@sub? . into ( ) ==> . vp_into ( )
//@ret r
//@spec
    ensures r matches RemoteFile::Sentry(f) && f.wf() && f.source == *source && f.at() == *url && f.with_token() == has_prefix(url.text(), source.url.text())
//@end

pub open spec fn optview(o: Option<&str>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body] pub struct Span { s: u8 }
impl Span { #[verifier::external_body] pub fn iter_headers(&self) -> Vec<(&'static str, String)> { unimplemented!() } }
/// the headers that continue a trace; they are names of their own
#[verifier::external_body] pub fn vp_span() -> (r: Option<Vec<(&'static str, String)>>) ensures r matches Some(v) ==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0@ != "authorization"@ { unimplemented!() }
//@item crates/symbolicator-service/src/download/sentry.rs SearchQuery derive=
impl SearchQuery { #[verifier::external_body] pub fn clone(&self) -> (r: SearchQuery) ensures r == *self { unimplemented!() } }
pub open spec fn query_ok(q: SearchQuery) -> bool { entitled(q.token@, q.index_url) }
/// the answer to a query with its token
pub open spec fn told<T>(q: SearchQuery, r: CacheContents<T>) -> bool { r matches Ok(v) ==> exists|a: Asked| a.to == q.index_url && a.token == Some(q.token@) && says(#[trigger] answer(a), v) }
/// what is read under a query was stored under an equal one (moka, assumed; the derived comparison of SearchQuery compares both parts)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct QueryCache<T> { t: core::marker::PhantomData<T> }
pub struct Slot<T> { pub q: Ghost<SearchQuery>, pub t: core::marker::PhantomData<T> }
pub struct Held<T> { pub v: CacheContents<T> }
impl<T> QueryCache<T> { #[verifier::external_body] pub fn entry_by_ref(&self, q: &SearchQuery) -> (r: Slot<T>) ensures r.q@ == *q { unimplemented!() } }
impl<T> Slot<T> { #[verifier::external_body] pub fn or_insert_with_if<F: Fn(&CacheContents<T>) -> bool>(self, v: CacheContents<T>, f: F) -> (r: Held<T>)
    requires told(self.q@, v), forall|x: &CacheContents<T>| f.requires((x,)) ensures told(self.q@, r.v) { unimplemented!() } }
impl<T> Held<T> { pub fn into_value(self) -> (r: CacheContents<T>) ensures r == self.v { self.v } }
// a task on the runtime under a timeout: its outcome, or an error (a `?` of an async block, R19, only ever ends it with an error)
pub struct Task<T> { pub v: T }
pub struct JoinError {} pub struct Elapsed {}
#[derive(Clone, Copy)] pub struct Runtime {}
impl Runtime { pub fn spawn<T>(&self, v: T) -> (r: Task<T>) ensures r.v == v { Task { v } } }
pub struct CancelOnDrop {}
impl CancelOnDrop { pub fn new<T>(t: Task<T>) -> (r: Task<T>) ensures r == t { t } }
pub mod tokio { pub mod time { use vstd::prelude::*; use super::super::*; verus! { #[verifier::external_body] pub fn timeout<T>(d: Duration, t: Task<T>) -> (r: Result<Result<T, JoinError>, Elapsed>) ensures r matches Ok(Ok(v)) ==> v == t.v { unimplemented!() } } } }
pub fn measure<T>(n: &str, m: (), t: T) -> (r: T) ensures r == t { t }
pub mod sentry_api {
use super::*;
#[derive(Clone, Copy)] pub struct SentryFileType { s: u8 }
impl SentryFileType { #[verifier::external_body] pub fn matches(self, f: &[FileType]) -> bool { unimplemented!() } }
//@item crates/symbolicator-service/src/download/sentry.rs SearchResult derive=
}
pub use sentry_api::*;
#[derive(Clone, Copy)] pub struct FileType { s: u8 }
#[verifier::external_body] pub struct DebugId { s: u8 }
impl DebugId { pub uninterp spec fn t(&self) -> Str; #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }
#[verifier::external_body] pub struct CodeId { s: u8 }
impl CodeId { pub uninterp spec fn t(&self) -> Str; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() } }
pub struct ObjectId { pub debug_id: Option<DebugId>, pub code_id: Option<CodeId> }
pub struct SentryDownloader { pub client: Client, pub runtime: Runtime, pub dif_cache: QueryCache<Vec<SearchResult>>, pub timeouts: DownloadTimeouts, pub propagate_traces: bool }
impl SentryDownloader {
//@fn crates/symbolicator-service/src/download/sentry.rs SentryDownloader::fetch_sentry_json async nloops=1
//@sub? where T : DeserializeOwned , ==>
//@sub? Arc < [ T ] > ==> Vec < T >
//@sub? reqwest :: Client ==> Client
//@sub? if let Some ( span ) = sentry :: configure_scope ( | scope | scope . get_span ( ) ) ==> if let Some ( span ) = vp_span ( )
//@sub? span . iter_headers ( ) ==> span
//@ret r
//@spec
    requires query_ok(*query)
    ensures told(*query, r)
//@loop 0 iter=it
    invariant request.q().to == query.index_url, request.q().token == Some(query.token@), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ != "authorization"@
//@end
//@fn crates/symbolicator-service/src/download/sentry.rs SentryDownloader::list_files async stub=matches
//@sub? super :: retry ( || Self :: fetch_sentry_json ( & client , & query , propagate_traces ) ) ==> Self :: fetch_sentry_json ( & client , & query , propagate_traces )
//@sub? . bind_hub ( sentry :: Hub :: current ( ) ) ==>
//@sub? m :: timed_result ==> ( )
//@sub? , None ) . into ( ) ==> , None ) . vp_into ( )
//@ret r
//@spec
    requires source_ok(*source)
    ensures r matches Ok(v) ==> all_own(v@, *source)
//@loop 0
    invariant all_own(vp_acc@, *source)
//@end
//@fn crates/symbolicator-service/src/download/sentry.rs SentryDownloader::download_source async
//@sub? impl Destination ==> Dest
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    requires file_source.wf(), source_ok(*file_source.source)
    ensures exists|q: Asked| #[trigger] stored(q, r) && q.by == self.client.id() && q.to == file_source.at() && q.token == (if file_source.with_token() { Some(file_source.source.token@) } else { None::<Str> })
//@end
}

// ---- lookups of JavaScript artifacts -----------------------------------------------------------------------------
#[derive(Clone, Copy)] pub enum ResolvedWith { A, B }
#[verifier::external_body] pub struct ArtifactHeaders { s: u8 }
impl ArtifactHeaders { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item crates/symbolicator-js/src/api_lookup.rs RawJsLookupResult derive=
//@item crates/symbolicator-js/src/api_lookup.rs JsLookupResult derive=
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { v: Vec<T> }
impl<T> BTreeSet<T> {
    /// the elements in their order
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body] pub fn vp_vec(self) -> (r: Vec<T>) ensures r@ == self.seq() { unimplemented!() }
}
pub open spec fn file_of(j: JsLookupResult) -> RemoteFile { match j { JsLookupResult::ArtifactBundle { remote_file, .. } => remote_file, JsLookupResult::IndividualArtifact { remote_file, .. } => remote_file } }
/// a file is fetched from where Sentry says, with the token only if that is below the source's address
pub open spec fn placed(f: RemoteFile, at: Url, s: SentrySourceConfig) -> bool { f matches RemoteFile::Sentry(f) && f.wf() && *f.source == s && f.at() == at && f.with_token() == has_prefix(at.text(), s.url.text()) }
pub open spec fn listed(raw: RawJsLookupResult, j: JsLookupResult, s: SentrySourceConfig) -> bool { match (raw, j) {
    (RawJsLookupResult::Bundle { url, resolved_with, .. }, JsLookupResult::ArtifactBundle { remote_file, resolved_with: w }) => placed(remote_file, url, s) && w == resolved_with,
    (RawJsLookupResult::File { url, abs_path, headers, resolved_with, .. }, JsLookupResult::IndividualArtifact { remote_file, abs_path: a, headers: h, resolved_with: w }) => placed(remote_file, url, s) && a@ == abs_path@ && h == headers && w == resolved_with,
    _ => false } }
pub open spec fn js_pairs(debug_ids: Seq<DebugId>, stems: Seq<String>, release: Option<Str>, dist: Option<Str>) -> Seq<(Str, Str)> {
    (match release { Some(r) => seq![("release"@, r)] + stems.map_values(|s: String| ("url"@, s@)), None => seq![] })
    + (match dist { Some(d) => seq![("dist"@, d)], None => seq![] }) + debug_ids.map_values(|d: DebugId| ("debug_id"@, d.t()))
}
pub struct SentryLookupApi { pub client: Client, pub runtime: Runtime, pub js_cache: QueryCache<Vec<RawJsLookupResult>>, pub timeouts: DownloadTimeouts, pub propagate_traces: bool }
impl SentryLookupApi {
//@fn crates/symbolicator-js/src/api_lookup.rs SentryLookupApi::lookup_js_artifacts async
//@sub? in file_stems ==> in file_stems . vp_vec ( )
//@sub? in debug_ids ==> in debug_ids . vp_vec ( )
//@sub? retry ( || SentryDownloader :: fetch_sentry_json ( & client , & query , propagate_traces ) ) ==> SentryDownloader :: fetch_sentry_json ( & client , & query , propagate_traces )
//@sub? . bind_hub ( sentry :: Hub :: current ( ) ) ==>
//@sub? m :: timed_result ==> ( )
//@ret r
//@spec
    requires source_ok(*source)
    ensures r matches Ok(v) ==> exists|u: Url, raw: CacheContents<Vec<RawJsLookupResult>>| #[trigger] u.base() == source.url.base() && u.pairs() =~= source.url.pairs() + js_pairs(debug_ids.seq(), file_stems.seq(), optview(release), optview(dist))
        && #[trigger] told(SearchQuery { index_url: u, token: source.token }, raw) && raw is Ok && raw->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> listed(raw->Ok_0@[i], #[trigger] v@[i], *source)
//@loop 0 iter=it
    invariant it.seq() == file_stems.seq(), query.base() == source.url.base(), query.pairs() =~= source.url.pairs() + (seq![("release"@, release@)] + file_stems.seq().take(it.index@ as int).map_values(|s: String| ("url"@, s@)))
//@loop 1 iter=it
    invariant it.seq() == debug_ids.seq(), query.base() == source.url.base(), query.pairs() =~= source.url.pairs() + js_pairs(debug_ids.seq().take(it.index@ as int), file_stems.seq(), optview(release), optview(dist))
//@loop 2 iter=it
    invariant it.seq().len() == entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == entries@[i], vp_acc@.len() == it.index@, forall|i: int| 0 <= i < vp_acc@.len() ==> listed(entries@[i], #[trigger] vp_acc@[i], *source)
//@end
}

// ---- HTTP sources: the headers of the source go with the requests for its files, and to nowhere else ------------------------
#[verifier::external_body] pub struct Headers { h: u8 }
impl Headers { pub uninterp spec fn seq(&self) -> Seq<(String, String)>; }
pub struct HttpSourceConfig { pub accept_invalid_certs: bool, pub headers: Headers }
pub struct HttpRemoteFile { pub source: HttpSourceConfig, pub headers: Headers, pub at: Ghost<Url> }
pub struct UrlError {}
impl HttpRemoteFile {
    pub open spec fn all(&self) -> Seq<(String, String)> { self.source.headers.seq() + self.headers.seq() }
    #[verifier::external_body] pub fn url(&self) -> (r: Result<Url, UrlError>) ensures r matches Ok(u) ==> u == self.at@ { unimplemented!() }
}
#[verifier::external_body] pub fn vp_headers(f: &HttpRemoteFile) -> (r: Vec<(String, String)>) ensures r@ == f.all() { unimplemented!() }
/// a request with headers; one whose name is no header name is left out
pub open spec fn with_headers(q: Asked, v: Seq<(String, String)>) -> Asked
    decreases v.len()
{ if v.len() == 0 { q } else { let p = with_headers(q, v.drop_last()); match header_name(v.last().0@) { None => p, Some(n) => if n == "authorization"@ { Asked { token: Some(v.last().1@), ..p } } else { Asked { headers: p.headers.push((n, v.last().1@)), ..p } } } } }
pub open spec fn plain(c: Client, to: Url) -> Asked { Asked { by: c.id(), to, token: None, headers: seq![(header::USER_AGENT@, USER_AGENT@)] } }
pub struct HttpDownloader { pub client: Client, pub no_ssl_client: Client, pub timeouts: DownloadTimeouts }
impl HttpDownloader {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-service/src/download/http.rs HttpDownloader::download_source async nloops=1 keep=as_bytes
//@sub impl Destination ==> Dest
//@sub? key . as_bytes ( ) ==> key . vp_raw ( )
//@sub? let headers = file_source . source . headers . iter ( ) . chain ( file_source . headers . iter ( ) ) ; ==> let headers = vp_headers ( file_source ) ;
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    requires forall|i: int| 0 <= i < file_source.all().len() ==> entitled((#[trigger] file_source.all()[i]).1@, file_source.at@)
    ensures r == Err::<(), CacheError>(CacheError::NotFound) || stored(with_headers(plain(if file_source.source.accept_invalid_certs { self.no_ssl_client } else { self.client }, file_source.at@), file_source.all()), r)
//@start
    assert(header::USER_AGENT@ != "authorization"@) by { reveal_strlit("user-agent"); reveal_strlit("authorization"); assert("user-agent"@.len() == 10 && "authorization"@.len() == 13); }
//@loop 0 iter=it
    invariant it.seq() == file_source.all(), file_source.all().take(file_source.all().len() as int) =~= file_source.all(), builder.q() == with_headers(plain(if file_source.source.accept_invalid_certs { self.no_ssl_client } else { self.client }, file_source.at@), file_source.all().take(it.index@ as int)), builder.q().token matches Some(t) ==> entitled(t, file_source.at@), builder.q().to == file_source.at@
//@body 0
    assert(file_source.all().take(it.index@ + 1).drop_last() =~= file_source.all().take(it.index@ as int));
//@end
}

// ---- Google buckets -------------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct GcsSourceKey { k: u8 }
#[verifier::external_body] pub struct GcsToken { k: u8 }
/// a token that was granted for a key (C29)
pub uninterp spec fn granted_to(token: Str, k: GcsSourceKey) -> bool;
impl GcsToken { pub uninterp spec fn text(&self) -> Str; #[verifier::external_body] pub fn bearer_token(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
pub struct GcsSourceConfig { pub bucket: String, pub source_key: GcsSourceKey }
pub struct GcsRemoteFile { pub source: GcsSourceConfig }
impl GcsRemoteFile { pub uninterp spec fn k(&self) -> Str; #[verifier::external_body] pub fn key(&self) -> (r: String) ensures r@ == self.k() { unimplemented!() } }
pub uninterp spec fn with_segments(base: Str, v: Seq<Str>) -> Str;
pub open spec fn object_at(bucket: Str, object: Str) -> Str { with_segments("https://storage.googleapis.com/storage/v1"@, seq!["b"@, bucket, "o"@, object]) }
pub enum GcsError { InvalidUrl }
impl vstd::std_specs::convert::FromSpecImpl<GcsError> for CacheError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: GcsError) -> CacheError; }
impl From<GcsError> for CacheError { #[verifier::external_body] fn from(e: GcsError) -> CacheError { unimplemented!() } }
impl Url {
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Url, UrlError>) ensures r matches Ok(u) ==> u.base() == s@ && u.pairs() == Seq::<(Str, Str)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn path_segments_mut(&mut self) -> (r: Result<&mut Url, UrlError>) ensures match r { Ok(u) => *u == *old(self) && *final(self) == *final(u), Err(_) => *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, v: &[&str; 4]) -> (r: &mut Url) ensures r.base() == with_segments(old(self).base(), seq![v@[0]@, v@[1]@, v@[2]@, v@[3]@]), r.pairs() == old(self).pairs(), *final(self) == *final(r) { unimplemented!() }
}
pub open spec fn gcs_ok(s: GcsSourceConfig) -> bool { forall|t: Str, u: Url, o: Str| granted_to(t, s.source_key) && u.base() == #[trigger] object_at(s.bucket@, o) ==> #[trigger] entitled(t, u) }
pub mod gcs {
use super::*;
//@fn crates/symbolicator-service/src/utils/gcs.rs object_url
//@ret r
//@spec
    ensures r matches Ok(u) ==> u.base() == object_at(bucket@, object@) && u.pairs() == Seq::<(Str, Str)>::empty()
//@end
//@fn crates/symbolicator-service/src/utils/gcs.rs download_url
//@ret r
//@spec
    ensures r matches Ok(u) ==> u.base() == object_at(bucket@, object@) && u.pairs() =~= seq![("alt"@, "media"@)]
//@end
}
pub struct GcsDownloader { pub client: Client, pub timeouts: DownloadTimeouts }
impl GcsDownloader {
    /// C29
    #[verifier::external_body] pub fn get_token(&self, k: &GcsSourceKey) -> (r: CacheContents<GcsToken>) ensures r matches Ok(t) ==> granted_to(t.text(), *k) { unimplemented!() }
//@fn crates/symbolicator-service/src/download/gcs.rs GcsDownloader::download_source async stub=get_token
//@sub? impl Destination ==> Dest
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    requires gcs_ok(file_source.source)
    ensures r is Err || exists|q: Asked| #[trigger] stored(q, r) && q.to.base() == object_at(file_source.source.bucket@, file_source.k()) && q.token is Some && granted_to(q.token->Some_0, file_source.source.source_key)
//@end
}
}
fn main() {}
