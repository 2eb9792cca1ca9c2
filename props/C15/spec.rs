use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

#[derive(Clone, Copy)] pub struct Duration { pub ms: u128 }
impl Duration { pub const ZERO: Duration = Duration { ms: 0 }; #[verifier::external_body] pub fn from_millis(m: u64) -> (r: Duration) ensures r.ms == m { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
// ---- the property: kinds of outcomes ---------------------------------------------------------------------
pub enum K { Good, Missing, Denied, Fail, Late, Other }
pub open spec fn kind<T>(r: CacheContents<T>) -> K { match r { Ok(_) => K::Good, Err(e) => ekind(e) } }
pub open spec fn ekind(e: CacheError) -> K { match e { CacheError::NotFound => K::Missing, CacheError::PermissionDenied(_) => K::Denied, CacheError::DownloadError(_) => K::Fail, CacheError::Timeout(_) => K::Late, _ => K::Other } }
/// what a status other than success stands for: 302 leads to a login page
pub open spec fn status_kind(c: int) -> K { if c == 401 || c == 403 || c == 302 { K::Denied } else if 400 <= c < 500 { K::Missing } else { K::Fail } }
/// an outcome that another try does not change
pub open spec fn settled(k: K) -> bool { k == K::Good || k == K::Missing || k == K::Denied }
/// what the server does with a request
pub enum Ans { Late, Broken, Reply(Response) }
pub uninterp spec fn ask(request: int, range: Option<(u64, u64)>) -> Ans;
pub uninterp spec fn first_range() -> (u64, u64);
/// how the transfer of the body of an answer ends
pub uninterp spec fn body_kind(r: Response) -> K;
pub open spec fn plain_kind(a: Ans) -> K { match a { Ans::Late => K::Late, Ans::Broken => K::Fail, Ans::Reply(r) => if 200 <= r.code() < 300 { body_kind(r) } else { status_kind(r.code() as int) } } }
/// a part is good only if it is the part that was asked for
pub open spec fn part_kind(a: Ans, part: (u64, u64, u64)) -> K { match a { Ans::Late => K::Late, Ans::Broken => K::Fail, Ans::Reply(r) => if told(r) == Some(Some(part)) { body_kind(r) } else if 200 <= r.code() < 300 { K::Fail } else { status_kind(r.code() as int) } } }
pub open spec fn parts_kinds(id: int, head: Response, c: (u64, u64, u64), v: Seq<Range>) -> Seq<K> { seq![body_kind(head)] + Seq::new(v.len(), |i: int| part_kind(ask(id, Some((v[i].start, v[i].end))), (v[i].start, v[i].end, c.2))) }
pub open spec fn joined(k: K, s: Seq<K>) -> bool { if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == K::Good { k == K::Good } else { k != K::Good && s.contains(k) } }
/// the outcome of a request that may be answered in parts
pub open spec fn ranged_kind(id: int, k: K) -> bool {
    match ask(id, Some(first_range())) { Ans::Late => k == K::Late, Ans::Broken => k == K::Fail, Ans::Reply(r) => match told(r) {
        None => k == (if 200 <= r.code() < 300 { body_kind(r) } else if r.code() == 416 { plain_kind(ask(id, None)) } else { status_kind(r.code() as int) }),
        Some(None) => k == plain_kind(ask(id, None)),
        Some(Some(c)) => if c.0 != 0 { k == plain_kind(ask(id, None)) } else if c.2 == 0 { k == K::Good } else { k == K::Other || joined(k, parts_kinds(id, r, c, split_of(c))) },
    } }
}
// ---- reqwest, by contract -----------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct StatusCode { pub c: u16 }
impl StatusCode {
    pub const PARTIAL_CONTENT: StatusCode = StatusCode { c: 206 };
    pub const RANGE_NOT_SATISFIABLE: StatusCode = StatusCode { c: 416 };
    pub const FORBIDDEN: StatusCode = StatusCode { c: 403 };
    pub const UNAUTHORIZED: StatusCode = StatusCode { c: 401 };
    pub const NOT_FOUND: StatusCode = StatusCode { c: 404 };
    pub const FOUND: StatusCode = StatusCode { c: 302 };
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.c < 300) { 200 <= self.c && self.c < 300 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.c < 500) { 400 <= self.c && self.c < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.c < 600) { 500 <= self.c && self.c < 600 }
    pub fn is_redirection(&self) -> (r: bool) ensures r == (300 <= self.c < 400) { 300 <= self.c && self.c < 400 }
    #[verifier::external_body] pub fn vp_to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body] pub struct Response { h: u8 }
impl Response { pub uninterp spec fn code(&self) -> u16; #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.c == self.code() { unimplemented!() } }
/// the range an answer holds (its reading is the subject of C13); None: the full resource, Some(None): unknown
pub uninterp spec fn told(r: Response) -> Option<Option<(u64, u64, u64)>>;
#[verifier::external_body] pub proof fn ax_told(r: Response) ensures told(r) is Some <==> r.code() == 206 {}
#[derive(Clone, Copy)] pub struct Range { pub start: u64, pub end: u64 }
impl Range { #[verifier::external_body] pub fn size(&self) -> u64 { unimplemented!() } }
#[derive(Clone, Copy)] pub struct BytesContentRange { pub start: u64, pub end: u64, pub total_size: u64 }
pub struct InvalidBytesRange {}
impl BytesContentRange { #[verifier::external_body] pub fn range(&self) -> (r: Range) ensures r.start == self.start, r.end == self.end { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BytesContentRange { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BytesContentRange) -> bool { self.start == o.start && self.end == o.end && self.total_size == o.total_size } }
impl PartialEq for BytesContentRange { #[verifier::external_body] fn eq(&self, o: &BytesContentRange) -> bool { unimplemented!() } }
pub uninterp spec fn split_of(c: (u64, u64, u64)) -> Seq<Range>;
#[verifier::external_body] pub fn split(r: BytesContentRange) -> (v: Vec<Range>) ensures v@ == split_of((r.start, r.end, r.total_size)) { unimplemented!() }
#[verifier::external_body] pub fn initial_range() -> (r: Range) ensures (r.start, r.end) == first_range() { unimplemented!() }

pub fn drop<T>(t: T) {}
pub struct Elapsed {}
#[derive(Clone, Copy)] pub struct DownloadTimeouts { pub head: Duration, pub max_download: Duration, pub streaming: Duration }
#[derive(Clone, Copy)] pub struct Measure {}
impl Measure { #[verifier::external_body] pub fn set_streams(&self, n: usize) { unimplemented!() } #[verifier::external_body] pub fn new(t: &str, s: &str) -> Measure { unimplemented!() } #[verifier::external_body] pub fn done(self, r: &CacheContents) { unimplemented!() } }
pub struct Stream {}
pub struct Dest {}
impl Dest { #[verifier::external_body] pub fn into_write(self) -> Stream { unimplemented!() } #[verifier::external_body] pub fn try_into_streams(self) -> Result<Streams, Dest> { unimplemented!() } #[verifier::external_body] pub fn vp_none(self) -> (r: Result<Streams, Dest>) ensures r is Err { unimplemented!() } }
pub struct Streams {}
impl Streams {
    #[verifier::external_body] pub fn set_size(&mut self, n: u64) -> (r: Result<(), CacheError>) ensures r is Err ==> ekind(r->Err_0) == K::Other { unimplemented!() }
    #[verifier::external_body] pub fn stream(&self, at: u64, len: u64) -> Stream { unimplemented!() }
    #[verifier::external_body] pub fn into_write(self) -> Stream { unimplemented!() }
    #[verifier::external_body] pub fn vp_flush(&mut self) -> Result<(), CacheError> { unimplemented!() }
}
/// a request about to be sent: which one, and the range it names
pub struct Request { pub id: Ghost<int>, pub range: Ghost<Option<(u64, u64)>> }
impl Request { #[verifier::external_body] pub fn vp_plain_get(&self) -> bool { unimplemented!() } }
pub struct Client {}
impl Client {
    /// the answer of the server, or what reqwest reports (From<reqwest::Error> for CacheError is below)
    #[verifier::external_body] pub fn vp_execute(&self, r: Request, t: Duration) -> (a: Result<Result<Response, CacheError>, Elapsed>)
        ensures (match a { Err(_) => ask(r.id@, r.range@) is Late, Ok(Err(e)) => ask(r.id@, r.range@) is Broken && e is DownloadError, Ok(Ok(x)) => ask(r.id@, r.range@) == Ans::Reply(x) }), r.range@ is None ==> (a matches Ok(Ok(x)) ==> x.code() != 206) { unimplemented!() }
}
/// a way in which a request may end
pub open spec fn asked_for(id: int, k: K) -> bool { k == K::Other || k == K::Fail || ranged_kind(id, k) || k == plain_kind(ask(id, None)) }
pub struct RequestBuilder { pub id: Ghost<int> }
impl RequestBuilder { #[verifier::external_body] pub fn build_split(self) -> (r: (Client, Result<Request, CacheError>)) ensures r.1 is Ok ==> r.1->Ok_0.id == self.id && r.1->Ok_0.range@ is None, r.1 is Err ==> r.1->Err_0 is DownloadError { unimplemented!() } }
pub struct SymRequest<'a> { pub source_name: &'a str, pub request: Request, pub client: Client, pub timeouts: &'a DownloadTimeouts, pub measure: &'a Measure }
pub struct SymResponse<'a> { pub timeouts: &'a DownloadTimeouts, pub measure: &'a Measure, pub response: Response }
impl<'a> SymRequest<'a> {
    #[verifier::external_body] pub fn to_source(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn try_clone(&self) -> (r: Option<SymRequest<'a>>) ensures r.is_some() ==> r.unwrap().request == self.request { unimplemented!() }
    #[verifier::external_body] pub fn with_range(self, r: Range) -> (q: SymRequest<'a>) ensures q.request.id == self.request.id, q.request.range@ == Some((r.start, r.end)) { unimplemented!() }
//@fn crates/symbolicator-service/src/download/mod.rs SymRequest::execute async stub=measure_download_time
//@sub let request = self . client . execute ( self . request ) ; let request = tokio :: time :: timeout ( self . timeouts . head , request ) ; ==> let request = self . client . vp_execute ( self . request , self . timeouts . head ) ;
//@sub let request = measure_download_time ( self . source_name , request ) ; ==>
//@ret r
//@spec
    ensures (match ask(self.request.id@, self.request.range@) { Ans::Late => kind(r) == K::Late, Ans::Broken => kind(r) == K::Fail, Ans::Reply(x) => r is Ok && r->Ok_0.response == x })
//@end
}
/// a download under way
pub struct Part { pub k: Ghost<K> }
pub enum Either { Left(Part), Right(Part) }
impl Part { pub fn send(self) -> (r: Part) ensures r == self { self } }
pub open spec fn one(e: Either) -> Part { match e { Either::Left(p) => p, Either::Right(p) => p } }
pub struct FuturesUnordered { pub parts: Ghost<Seq<K>> }
impl FuturesUnordered {
    #[verifier::external_body] pub fn new() -> (r: FuturesUnordered) ensures r.parts@ == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, e: Either) ensures final(self).parts@ == old(self).parts@.push(one(e).k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn vp_join(&mut self) -> (r: Result<(), CacheError>) ensures joined(kind(r), old(self).parts@) { unimplemented!() }
}
impl SymResponse<'_> {
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.c == self.response.code() { unimplemented!() }
    #[verifier::external_body] pub fn content_range(&self) -> (r: Option<Result<BytesContentRange, InvalidBytesRange>>) ensures (match (r, told(self.response)) { (None, None) => true, (Some(Ok(x)), Some(Some(t))) => t == (x.start, x.end, x.total_size), (Some(Err(_)), Some(None)) => true, _ => false }) { unimplemented!() }
    /// transfers the body: everything was stored, or a download error, timeout or error of the local disk
    #[verifier::external_body] pub fn download(self, s: Stream) -> (r: CacheContents) ensures kind(r) == body_kind(self.response) { unimplemented!() }
    #[verifier::external_body] pub fn vp_head(self, s: Stream) -> (r: Part) ensures r.k@ == body_kind(self.response) { unimplemented!() }
}
pub mod std_err { }
/// an error and the errors it was caused by
#[verifier::external_body] pub struct ErrChain { e: u8 }
impl ErrChain {
    pub uninterp spec fn depth(&self) -> nat;
    #[verifier::external_body] pub fn source(&self) -> (r: Option<&ErrChain>) ensures r matches Some(x) ==> x.depth() < self.depth() { unimplemented!() }
    #[verifier::external_body] pub fn vp_to_string(&self) -> String { unimplemented!() }
}
impl CacheError {
//@fn crates/symbolicator-service/src/download/mod.rs CacheError::download_error
//@sub mut error : & dyn Error ==> error : & ErrChain
//@sub while let Some ( src ) = error . source ( ) { error = src ; } ==> let mut error = error ; loop { match error . source ( ) { Some ( src ) => { error = src ; } None => { break ; } } }
//@ret r
//@spec
    ensures r is DownloadError
//@loop 0
    invariant true
    decreases error.depth()
//@end
}
//@fn crates/symbolicator-service/src/download/mod.rs status_to_error
//@ret r
//@spec
    requires !(200 <= status.c < 300)
    ensures ekind(r) == status_kind(status.c as int)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest async stub=download,execute,status,content_range,to_source,with_range,drop,new,set_streams,try_clone
//@sub? impl WriteStream ==> Stream
//@ret r
//@spec
    requires request.request.range@ is None
    ensures kind(r) == plain_kind(ask(request.request.id@, None))
//@end
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest_part async stub=download,execute,status,content_range,to_source,with_range,drop,new,set_streams,try_clone
//@sub? impl WriteStream ==> Stream
//@ret r
//@start
proof { assert forall|x: Response| true implies (told(x) is Some <==> #[trigger] x.code() == 206) by { ax_told(x); } }
//@spec
    ensures kind(r) == part_kind(ask(request.request.id@, Some((part.start, part.end))), (part.start, part.end, part.total_size))
//@end
/// the contract of do_download_reqwest_part as a future
#[verifier::external_body] pub fn vp_part(request: SymRequest<'_>, part: BytesContentRange, destination: Stream) -> (r: Part) ensures r.k@ == part_kind(ask(request.request.id@, Some((part.start, part.end))), (part.start, part.end, part.total_size)) { unimplemented!() }
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest_range async stub=download,execute,status,content_range,to_source,with_range,drop,new,set_streams,try_clone while=0 keep=ok_or
//@sub? impl MultiStreamDestination ==> Streams
//@sub? std :: pin :: pin ! ( destination . into_write ( ) ) ==> destination . into_write ( )
//@sub? partial :: initial_range ==> initial_range
//@sub? partial :: split ==> split
//@sub? response . download ( destination . stream ( ==> response . vp_head ( destination . stream (
//@sub? do_download_reqwest_part ( ==> vp_part (
//@sub while futures . try_next ( ) . await ? . is_some ( ) { } ==> futures . vp_join ( ) ? ;
//@before futures . vp_join
proof { assert(futures.parts@ =~= parts_kinds(request.request.id@, ask(request.request.id@, Some(first_range()))->Reply_0, (content_range.start, content_range.end, content_range.total_size), split_of((content_range.start, content_range.end, content_range.total_size)))); }
//@ret r
//@start
proof { assert forall|x: Response| true implies (told(x) is Some <==> #[trigger] x.code() == 206) by { ax_told(x); } }
//@spec
    requires request.request.range@ is None
    ensures kind(r) == K::Other || ranged_kind(request.request.id@, kind(r))
//@loop 0
    invariant request.request.range@ is None, vp_i0 <= vp_v0@.len(), vp_v0@ == split_of((content_range.start, content_range.end, content_range.total_size)),
        futures.parts@.len() == vp_i0 + 1, futures.parts@ =~= parts_kinds(request.request.id@, ask(request.request.id@, Some(first_range()))->Reply_0, (content_range.start, content_range.end, content_range.total_size), vp_v0@).subrange(0, vp_i0 + 1)
    decreases vp_v0@.len() - vp_i0
//@end
//@fn crates/symbolicator-service/src/download/mod.rs download_reqwest async stub=send,into_write,new,try_into_streams,build_split,done
//@sub builder : reqwest :: RequestBuilder ==> builder : RequestBuilder
//@sub? impl Destination ==> Dest
//@sub? MeasureSourceDownloadGuard :: new ==> Measure :: new
//@sub? request . method ( ) == reqwest :: Method :: GET && request . body ( ) . is_none ( ) ==> request . vp_plain_get ( )
//@sub? std :: pin :: pin ! ( destination . into_write ( ) ) ==> destination . into_write ( )
//@sub? do_download_reqwest_range ( request , destination ) . send ( ) ==> do_download_reqwest_range ( request , destination )
//@sub? do_download_reqwest ( request , destination ) . send ( ) ==> do_download_reqwest ( request , destination )
//@ret r
//@spec
    ensures asked_for(builder.id@, kind(r))
//@end
// ---- retries ---------------------------------------------------------------------------------------------
/// what is tried: the outcomes so far
pub struct Task { pub log: Ghost<Seq<K>> }
impl Task { #[verifier::external_body] pub fn run(&mut self) -> (r: CacheContents) ensures final(self).log@ == old(self).log@.push(kind(r)) { unimplemented!() } }
pub struct Sleep {}
#[verifier::external_body] pub fn vp_sleep(d: Duration) -> Sleep { unimplemented!() }
//@fn crates/symbolicator-service/src/download/mod.rs retry async
//@sub retry < G , F , T > ==> retry
//@sub? task_gen : G ==> task_gen : & mut Task
//@sub? CacheContents < T > ==> CacheContents
//@sub? where G : Fn ( ) -> F , F : Future < Output = CacheContents > , ==>
//@sub? task_gen ( ) ==> task_gen . run ( )
//@sub? tokio :: time :: sleep ( ==> vp_sleep (
//@ret r
//@spec
    ensures retried(old(task_gen).log@, final(task_gen).log@, kind(r))
//@loop 0
    invariant 0 <= tries <= 2, task_gen.log@.len() == old(task_gen).log@.len() + tries, forall|i: int| 0 <= i < old(task_gen).log@.len() ==> #[trigger] task_gen.log@[i] == old(task_gen).log@[i],
        forall|i: int| old(task_gen).log@.len() <= i < task_gen.log@.len() ==> !settled(#[trigger] task_gen.log@[i])
    decreases 3 - tries
//@end
/// one to three tries; the last one counts; a settled outcome ends them, and nothing but it or the third try does
pub open spec fn retried(old: Seq<K>, log: Seq<K>, k: K) -> bool {
    let n = log.len() - old.len();
    &&& 1 <= n <= 3 && log.last() == k && (forall|i: int| 0 <= i < old.len() ==> #[trigger] log[i] == old[i])
    &&& forall|i: int| old.len() <= i < log.len() - 1 ==> !settled(#[trigger] log[i])
    &&& n == 3 || settled(k)
}
// ---- S3 and the file system --------------------------------------------------------------------------------
/// an answer of the AWS client: its status, code and message
#[verifier::external_body] pub struct ServiceError { e: u8 }
pub struct Raw { pub st: u16 }
#[derive(Clone, Copy)] pub struct RawStatus { pub st: u16 }
impl RawStatus { pub fn as_u16(&self) -> (r: u16) ensures r == self.st { self.st } }
impl Raw { pub fn status(&self) -> (r: RawStatus) ensures r.st == self.st { RawStatus { st: self.st } } }
#[verifier::external_body] pub struct GetObjectError { e: u8 }
impl GetObjectError {
    pub uninterp spec fn code_of(&self) -> Option<Str>;
    #[verifier::external_body] pub fn code(&self) -> (r: Option<&str>) ensures r is Some <==> self.code_of() is Some, r matches Some(c) ==> self.code_of() == Some(c@) { unimplemented!() }
    #[verifier::external_body] pub fn message(&self) -> Option<&str> { unimplemented!() }
}
impl ServiceError { pub uninterp spec fn st(&self) -> u16; pub uninterp spec fn e(&self) -> GetObjectError;
    #[verifier::external_body] pub fn raw(&self) -> (r: &Raw) ensures r.st == self.st() { unimplemented!() }
    #[verifier::external_body] pub fn err(&self) -> (r: &GetObjectError) ensures *r == self.e() { unimplemented!() } }
pub struct Opaque {}
pub enum SdkError { ConstructionFailure(Opaque), TimeoutError(Opaque), DispatchFailure(Opaque), ResponseError(Opaque), ServiceError(ServiceError) }
pub enum S3Error { NoSuchKey(Opaque), NoSuchBucket(Opaque), NotFound(Opaque), InvalidObjectState(Opaque), Unhandled(Opaque) }
pub open spec fn sdk_code(e: SdkError) -> Option<Str> { match e { SdkError::ServiceError(s) => s.e().code_of(), _ => None } }
pub uninterp spec fn s3_code(e: S3Error) -> Option<Str>;
impl S3Error {
    /// the conversion of the AWS SDK keeps the code; a typed variant is the one its code names
    #[verifier::external_body] pub fn from(e: SdkError) -> (r: S3Error) ensures s3_code(r) == sdk_code(e), r is NoSuchKey ==> sdk_code(e) == Some("NoSuchKey"@), r is NoSuchBucket ==> sdk_code(e) == Some("NoSuchBucket"@), r is NotFound ==> sdk_code(e) == Some("NotFound"@) { unimplemented!() }
    #[verifier::external_body] pub fn code(&self) -> (r: Option<&str>) ensures r is Some <==> s3_code(*self) is Some, r matches Some(c) ==> s3_code(*self) == Some(c@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body] pub fn vp_is(c: Option<&str>, s: &str) -> (r: bool) ensures r == (c is Some && c->0@ == s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_msg(c: Option<&str>) -> String { unimplemented!() }
pub open spec fn s3_kind(e: SdkError) -> K { match e {
    SdkError::TimeoutError(_) => K::Late,
    SdkError::ServiceError(s) if s.st() == 401 || s.st() == 403 || s.e().code_of() == Some("AuthorizationHeaderMalformed"@) => K::Denied,
    _ => match sdk_code(e) { Some(c) => if c == "NoSuchBucket"@ || c == "NoSuchKey"@ || c == "NotFound"@ { K::Missing } else { K::Fail }, None => K::Fail } } }
pub struct Output { pub content_length: Option<i64>, pub body: Ghost<K> }
pub struct S3Downloader { pub timeouts: DownloadTimeouts, pub sent: Ghost<Result<Result<Output, SdkError>, Elapsed>> }
#[verifier::external_body] pub struct S3RemoteFile { f: u8 }
impl S3RemoteFile { #[verifier::external_body] pub fn key(&self) -> String { unimplemented!() } #[verifier::external_body] pub fn bucket(&self) -> String { unimplemented!() } }
impl S3Downloader {
    /// the client for the key of the source is asked for the object (C29), at most for the given time
    #[verifier::external_body] pub fn vp_get_object(&self, f: &S3RemoteFile, bucket: &String, key: &String, t: Duration) -> (r: Result<Result<Output, SdkError>, Elapsed>) ensures r == self.sent@ { unimplemented!() }
    /// the transfer of the body
    #[verifier::external_body] pub fn vp_body(&self, o: Output, d: Dest) -> (r: CacheContents) ensures kind(r) == o.body@ { unimplemented!() }
//@fn crates/symbolicator-service/src/download/s3.rs S3Downloader::download_source async stub=get_s3_client res=map_err nocomb=map,and_then,unwrap_or
//@sub? impl Destination ==> Dest
//@sub let source_key = file_source . source . source_key . clone ( ) ; let client = self . get_s3_client ( & source_key ) . await ; let request = client . get_object ( ) . bucket ( & bucket ) . key ( & key ) . send ( ) ; ==>
//@sub let request = tokio :: time :: timeout ( timeout , request ) ; let request = super :: measure_download_time ( source_name , request ) ; ==> let request = self . vp_get_object ( file_source , & bucket , & key , timeout ) ;
//@sub? code == Some ( "AuthorizationHeaderMalformed" ) ==> vp_is ( code , "AuthorizationHeaderMalformed" )
//@sub? service_err . err ( ) . message ( ) . unwrap_or_default ( ) . to_string ( ) ==> vp_msg ( service_err . err ( ) . message ( ) )
//@sub? matches ! ( err . code ( ) , Some ( "NoSuchBucket" | "NoSuchKey" | "NotFound" ) ) ==> ( vp_is ( err . code ( ) , "NoSuchBucket" ) || vp_is ( err . code ( ) , "NoSuchKey" ) || vp_is ( err . code ( ) , "NotFound" ) )
//@sub let timeout = response . content_length . and_then ( | cl | u64 :: try_from ( cl ) . ok ( ) ) . map ( | cl | content_length_timeout ( cl , self . timeouts . streaming ) ) . unwrap_or ( self . timeouts . max_download ) ; let mut body = std :: pin :: pin ! ( response . body ) ; let stream = futures :: stream :: poll_fn ( move | cx | body . as_mut ( ) . poll_next ( cx ) ) . map_err ( | err | CacheError :: download_error ( & err ) ) ; let mut destination = std :: pin :: pin ! ( destination . into_write ( ) ) ; tokio :: time :: timeout ( timeout , super :: download_stream ( source_name , stream , destination . as_mut ( ) ) , ) . await . map_err ( | _ | CacheError :: Timeout ( timeout ) ) ?? ; destination . flush ( ) . await ? ; ==> self . vp_body ( response , destination ) ? ;
//@ret r
//@spec
    ensures (match self.sent@ { Err(_) => kind(r) == K::Late, Ok(Err(e)) => kind(r) == s3_kind(e), Ok(Ok(o)) => kind(r) == (if o.content_length == Some(0i64) { K::Missing } else { o.body@ }) })
//@end
}
pub struct FilesystemDownloader {}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum IoKind { NotFound, PermissionDenied, NotADirectory, IsADirectory, TimedOut, Interrupted, Other }
pub struct IoError { pub k: IoKind }
impl IoError { pub fn kind(&self) -> (r: IoKind) ensures r == self.k { self.k } #[verifier::external_body] pub fn into(self) -> (r: CacheError) ensures ekind(r) == K::Other { unimplemented!() } }
pub struct File {}
pub struct FilesystemRemoteFile { pub on_disk: Ghost<Result<(), IoError>> }
pub struct Path2 { pub on_disk: Ghost<Result<(), IoError>> }
impl FilesystemRemoteFile { #[verifier::external_body] pub fn path(&self) -> (r: Path2) ensures r.on_disk == self.on_disk { unimplemented!() } }
impl File { #[verifier::external_body] pub fn open(p: Path2) -> (r: Result<File, IoError>) ensures r is Ok <==> p.on_disk@ is Ok, r is Err ==> r->Err_0 == p.on_disk@->Err_0 { unimplemented!() } }
#[verifier::external_body] pub fn vp_copy(f: &mut File, d: &mut Stream) -> (r: Result<u64, CacheError>) ensures r is Err ==> ekind(r->Err_0) == K::Other { unimplemented!() }
impl FilesystemDownloader {
//@fn crates/symbolicator-service/src/download/filesystem.rs FilesystemDownloader::download_source async res=map_err stub=open,path,into_write
//@sub? impl Destination ==> Dest
//@sub? io :: ErrorKind :: ==> IoKind ::
//@sub? std :: pin :: pin ! ( destination . into_write ( ) ) ==> destination . into_write ( )
//@sub? tokio :: io :: copy ==> vp_copy
//@ret r
//@spec
    ensures kind(r) == (match file_source.on_disk@ { Err(e) => if e.k == IoKind::NotFound { K::Missing } else { K::Other }, Ok(_) => kind(r) }), file_source.on_disk@ is Ok ==> kind(r) == K::Good || kind(r) == K::Other
//@end
}
// ---- every source: one request for its file, or the reason why there is none ------------------------------------------
#[derive(Clone, Copy)] pub struct Url { pub u: Ghost<int> }
/// where a request goes
pub uninterp spec fn to_of(id: int) -> Url;
pub open spec fn fetched(u: Url, k: K) -> bool { exists|id: int| to_of(id) == u && #[trigger] asked_for(id, k) }
impl Client { #[verifier::external_body] pub fn get(&self, u: Url) -> (r: RequestBuilder) ensures to_of(r.id@) == u { unimplemented!() } }
pub struct HeaderName {}
pub mod header { pub use super::HeaderName; pub const USER_AGENT: &'static str = "user-agent"; }
pub struct HeaderText {}
impl HeaderName { #[verifier::external_body] pub fn from_bytes(b: HeaderText) -> Result<HeaderName, Opaque> { unimplemented!() } }
pub const USER_AGENT: &'static str = "symbolicator";
impl RequestBuilder { #[verifier::external_body] pub fn header<A, B>(self, k: A, v: B) -> (r: Self) ensures to_of(r.id@) == to_of(self.id@) { unimplemented!() } #[verifier::external_body] pub fn bearer_auth(self, t: &String) -> (r: Self) ensures to_of(r.id@) == to_of(self.id@) { unimplemented!() } }
pub struct SentrySourceConfig { pub token: String }
pub struct SentryRemoteFile { pub source: SentrySourceConfig, pub at: Url }
impl SentryRemoteFile { #[verifier::external_body] pub fn url(&self) -> (r: Url) ensures r == self.at { unimplemented!() } #[verifier::external_body] pub fn use_credentials(&self) -> bool { unimplemented!() } }
pub struct HttpSourceConfig { pub accept_invalid_certs: bool }
/// no address can be made of the location of the file (None)
pub struct HttpRemoteFile { pub source: HttpSourceConfig, pub at: Option<Url> }
impl HttpRemoteFile { #[verifier::external_body] pub fn url(&self) -> (r: Result<Url, Opaque>) ensures r is Ok <==> self.at is Some, r is Ok ==> r->Ok_0 == self.at->0 { unimplemented!() } }
#[verifier::external_body] pub fn vp_headers(f: &HttpRemoteFile) -> Vec<(String, String)> { unimplemented!() }
#[verifier::external_body] pub fn vp_raw(s: &String) -> HeaderText { unimplemented!() }
pub struct GcsSourceKey {}
pub struct GcsSourceConfig { pub bucket: String, pub source_key: GcsSourceKey }
pub struct GcsRemoteFile { pub source: GcsSourceConfig }
impl GcsRemoteFile { pub uninterp spec fn k(&self) -> Str; #[verifier::external_body] pub fn key(&self) -> (r: String) ensures r@ == self.k() { unimplemented!() } }
pub struct GcsToken {}
impl GcsToken { #[verifier::external_body] pub fn bearer_token(&self) -> &str { unimplemented!() } }
/// C32
pub uninterp spec fn object_at(bucket: Str, key: Str) -> Url;
pub mod gcs { use super::*; #[verifier::external_body] pub fn download_url(bucket: &str, key: &str) -> (r: Result<Url, CacheError>) ensures r is Ok ==> r->Ok_0 == object_at(bucket@, key@), r is Err ==> r->Err_0 is DownloadError { unimplemented!() } }
pub struct SentryDownloader { pub client: Client, pub timeouts: DownloadTimeouts }
impl SentryDownloader {
//@fn crates/symbolicator-service/src/download/sentry.rs SentryDownloader::download_source async
//@sub? impl Destination ==> Dest
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    ensures fetched(file_source.at, kind(r))
//@end
}
pub struct HttpDownloader { pub client: Client, pub no_ssl_client: Client, pub timeouts: DownloadTimeouts }
impl HttpDownloader {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-service/src/download/http.rs HttpDownloader::download_source async nloops=1 keep=as_bytes
//@sub? impl Destination ==> Dest
//@sub? key . as_bytes ( ) ==> vp_raw ( & key )
//@sub? let headers = file_source . source . headers . iter ( ) . chain ( file_source . headers . iter ( ) ) ; ==> let headers = vp_headers ( file_source ) ;
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    ensures (match file_source.at { None => kind(r) == K::Missing, Some(u) => fetched(u, kind(r)) })
//@loop 0 iter=it
    invariant to_of(builder.id@) == file_source.at->0
//@end
}
pub struct GcsDownloader { pub client: Client, pub timeouts: DownloadTimeouts }
impl GcsDownloader {
    /// a token, or the reason why none was granted (not an answer about the file)
    #[verifier::external_body] pub fn get_token(&self, k: &GcsSourceKey) -> (r: CacheContents<GcsToken>) ensures r is Err ==> r->Err_0 is DownloadError { unimplemented!() }
//@fn crates/symbolicator-service/src/download/gcs.rs GcsDownloader::download_source async stub=get_token
//@sub? impl Destination ==> Dest
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    ensures kind(r) == K::Fail || fetched(object_at(file_source.source.bucket@, file_source.k()), kind(r))
//@end
}
pub enum RemoteFile { Sentry(SentryRemoteFile), Http(HttpRemoteFile), S3(S3RemoteFile), Gcs(GcsRemoteFile), Filesystem(FilesystemRemoteFile) }
impl RemoteFile { #[verifier::external_body] pub fn source_metric_key(&self) -> &str { unimplemented!() } }
pub struct TargetPath {}
pub struct Target {}
#[verifier::external_body] pub fn vp_create(p: &TargetPath) -> (r: Result<Target, CacheError>) ensures r is Err ==> ekind(r->Err_0) == K::Other { unimplemented!() }
#[verifier::external_body] pub fn vp_dest(d: &mut Target) -> Dest { unimplemented!() }
pub struct DownloadService { pub sentry: SentryDownloader, pub http: HttpDownloader, pub s3: S3Downloader, pub gcs: GcsDownloader, pub fs: FilesystemDownloader }
/// how one attempt at a file may end (the local disk may fail at any time)
pub open spec fn attempt(s: DownloadService, f: RemoteFile, k: K) -> bool { k == K::Other || match f {
    RemoteFile::Sentry(f) => fetched(f.at, k),
    RemoteFile::Http(f) => match f.at { None => k == K::Missing, Some(u) => fetched(u, k) },
    RemoteFile::S3(f) => match s.s3.sent@ { Err(_) => k == K::Late, Ok(Err(e)) => k == s3_kind(e), Ok(Ok(o)) => k == (if o.content_length == Some(0i64) { K::Missing } else { o.body@ }) },
    RemoteFile::Gcs(f) => k == K::Fail || fetched(object_at(f.source.bucket@, f.k()), k),
    RemoteFile::Filesystem(f) => match f.on_disk@ { Err(e) => e.k == IoKind::NotFound && k == K::Missing, Ok(_) => k == K::Good } } }
/// the outcome of the last attempt is the outcome (contract of retry above); its early exits are exits here
pub fn vp_attempt(r: CacheContents) -> (o: CacheContents) ensures o == r { r }
impl DownloadService {
//@fn crates/symbolicator-service/src/download/mod.rs DownloadService::dispatch_download async
//@sub destination : & Path ==> destination : & TargetPath
//@sub retry ( || async { ==> vp_attempt ( {
//@sub? tokio :: fs :: File :: create ==> vp_create
//@sub? & mut destination ==> vp_dest ( & mut destination )
//@drop? let _ = destination . flush
//@ret r
//@spec
    ensures attempt(*self, *source, kind(r))
//@end
}
} // verus!
fn main() {}
