use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- what the code depends on: reqwest, the runtime, the file ------------------------------------------
pub type Duration = u128;
pub mod io { pub struct Error { pub e: u8 } pub type Result<T> = core::result::Result<T, Error>; }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
/// bytes::Bytes
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() } }
pub struct Measure {}
impl Measure { #[verifier::external_body] pub fn add_bytes_transferred(&self, n: u64) { unimplemented!() } }
#[verifier::external_body] pub fn vp_timed_out(t: Duration) -> bool { unimplemented!() }
#[verifier::external_body] pub fn content_length_timeout(n: u64, t: Duration) -> Duration { unimplemented!() }
pub struct DownloadTimeouts { pub streaming: Duration, pub max_download: Duration, pub head: Duration }
pub struct BytesContentRange { pub total_size: u64 }
pub struct InvalidBytesRange {}
impl BytesContentRange { #[verifier::external_body] pub fn from_response(r: &Response) -> Option<Result<BytesContentRange, InvalidBytesRange>> { unimplemented!() } }
/// the body of an answer, in chunks of any size; reading one of them can fail
#[verifier::external_body] pub struct Response { r: u8 }
impl Response { pub uninterp spec fn body(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn content_length(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] pub fn bytes_stream(self) -> (r: Chunks) ensures r.rest() == self.body() { unimplemented!() } }
#[verifier::external_body] pub struct Chunks { r: u8 }
impl Chunks { pub uninterp spec fn rest(&self) -> Seq<u8>; pub uninterp spec fn left(&self) -> nat;
    /// a failing read says nothing about what follows
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<Bytes, CacheError>>) ensures match r { None => old(self).rest() == Seq::<u8>::empty() && final(self).rest() == old(self).rest(), Some(Ok(b)) => old(self).rest() == b.b@ + final(self).rest() && final(self).left() < old(self).left(), Some(Err(_)) => true } { unimplemented!() } }
pub trait VpTranspose { spec fn ov(self) -> Option<Result<Bytes, CacheError>>; fn vp_transpose(self) -> (r: Result<Option<Bytes>, CacheError>) ensures match self.ov() { None => r == Ok::<Option<Bytes>, CacheError>(None), Some(Ok(b)) => r == Ok::<Option<Bytes>, CacheError>(Some(b)), Some(Err(e)) => r == Err::<Option<Bytes>, CacheError>(e) }; }
impl VpTranspose for Option<Result<Bytes, CacheError>> { open spec fn ov(self) -> Option<Result<Bytes, CacheError>> { self } fn vp_transpose(self) -> (r: Result<Option<Bytes>, CacheError>) { match self { None => Ok(None), Some(Ok(b)) => Ok(Some(b)), Some(Err(e)) => Err(e) } } }
pub trait VpQ { spec fn okv(self) -> bool; fn vp_q(self) -> (r: Result<(), CacheError>) ensures r.is_ok() == self.okv(); }
impl VpQ for io::Result<()> { open spec fn okv(self) -> bool { self.is_ok() } #[verifier::external_body] fn vp_q(self) -> Result<(), CacheError> { unimplemented!() } }
/// a destination and what it was given, in order
pub trait WriteStream: Sized { spec fn got(&self) -> Seq<u8>;
    fn write_buf(&mut self, b: Bytes) -> (r: io::Result<()>) ensures r.is_ok() ==> final(self).got() == old(self).got() + b.b@; }
pub struct SymResponse { pub timeouts: DownloadTimeouts, pub measure: Measure, pub response: Response }
impl SymResponse {
// a timeout ends the transfer with an error, at any point of it: what was written then does not count
//@fn crates/symbolicator-service/src/download/mod.rs SymResponse::download async stub=content_length,content_length_timeout,from_response,add_bytes_transferred
//@sub? mut destination : impl WriteStream ==> destination : &mut impl WriteStream
//@sub? . bytes_stream ( ) . map_err ( CacheError :: from ) ==> . bytes_stream ( )
//@sub? tokio :: time :: timeout ( timeout , async move { ==> if vp_timed_out ( timeout ) { return Err ( CacheError :: Timeout ( timeout ) ) ; } {
//@sub? } ) . await . map_err ( | _ | CacheError :: Timeout ( timeout ) ) ? ==> }
//@sub? stream . next ( ) . await . transpose ( ) ? ==> stream . next ( ) . vp_transpose ( ) ?
//@sub? . write_buf ( chunk ) . await ? ==> . write_buf ( chunk ) . vp_q ( ) ?
//@ret r
//@spec
    ensures r.is_ok() ==> final(destination).got() == old(destination).got() + self.response.body()
//@loop 0
    invariant destination.got() + stream.rest() == old(destination).got() + self.response.body()
    ensures destination.got() == old(destination).got() + self.response.body()
    decreases stream.left()
//@end
}

// ---- the Range header ----------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Range { pub start: u64, pub end: u64 }
/// how a range is rendered (its Display, under contract in spec.rs)
pub uninterp spec fn shown(a: u64, b: u64) -> Str;
impl Range { #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == shown(self.start, self.end) { unimplemented!() } }
#[derive(Debug)] pub struct InvalidHeaderValue {}
#[verifier::external_body] pub struct HeaderValue { h: u8 }
impl HeaderValue { pub uninterp spec fn text(&self) -> Str;
    /// the text of a range is a header value (digits, `=` and `-`)
    #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<HeaderValue, InvalidHeaderValue>) ensures (exists|a: u64, b: u64| #[trigger] shown(a, b) == s@) ==> r.is_ok(), r matches Ok(h) ==> h.text() == s@ { unimplemented!() } }
pub enum HeaderName { RANGE, OTHER }
#[verifier::external_body] pub struct Headers { h: u8 }
impl Headers { pub uninterp spec fn range(&self) -> Option<Str>;
    #[verifier::external_body] pub fn insert(&mut self, n: HeaderName, v: HeaderValue) -> (r: Option<HeaderValue>) ensures final(self).range() == (if n is RANGE { Some(v.text()) } else { old(self).range() }) { unimplemented!() }
    /// keeps what is there: the first value is the one that counts
    #[verifier::external_body] pub fn append(&mut self, n: HeaderName, v: HeaderValue) -> (r: bool) ensures final(self).range() == (if n is RANGE && old(self).range() is None { Some(v.text()) } else { old(self).range() }) { unimplemented!() } }
pub struct Request { pub headers: Headers, pub rest: Ghost<int> }
impl Request {
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).headers, final(self).headers == *final(r), final(self).rest == old(self).rest { unimplemented!() }
    #[verifier::external_body] pub fn try_clone(&self) -> (r: Option<Request>) ensures r matches Some(x) ==> x == *self { unimplemented!() } }
#[verifier::external_body] pub struct Client { h: u8 }
impl Client { #[verifier::external_body] pub fn clone(&self) -> (r: Client) ensures r == *self { unimplemented!() } }
pub struct SymRequest<'a> { pub source_name: &'a str, pub request: Request, pub client: Client, pub timeouts: &'a DownloadTimeouts, pub measure: &'a Measure }
impl<'a> SymRequest<'a> {
//@fn crates/symbolicator-service/src/download/mod.rs SymRequest::with_range
//@sub? partial :: Range ==> Range
//@sub? reqwest :: header :: HeaderValue ==> HeaderValue
//@sub? reqwest :: header :: RANGE ==> HeaderName :: RANGE
//@ret r
//@spec
    ensures r.request.headers.range() == Some(shown(range.start, range.end)), r.request.rest == self.request.rest, r.client == self.client
//@end
//@fn crates/symbolicator-service/src/download/mod.rs SymRequest::try_clone
//@ret r
//@spec
    ensures r matches Some(x) ==> x.request == self.request && x.client == self.client
//@end
}

// ---- the file ------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct File { h: u8 }
impl File { pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn clone(&self) -> (r: File) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn write_all_at(&self, b: &Bytes, at: u64) -> (r: io::Result<()>) ensures r.is_ok() ==> wrote(self.id(), at as int, b.b@) { unimplemented!() } }
/// these bytes were written there
pub uninterp spec fn wrote(id: int, at: int, b: Seq<u8>) -> bool;
pub struct Arc {}
impl Arc { #[verifier::external_body] pub fn clone(f: &File) -> (r: File) ensures r.id() == f.id() { unimplemented!() } }
//@item crates/symbolicator-service/src/download/destination.rs OffsetFileWriteStream
//@isub Arc < std :: fs :: File > ==> File
impl OffsetFileWriteStream {
    pub open spec fn room(&self) -> int { self.end - self.offset - 1 }
//@fn crates/symbolicator-service/src/download/destination.rs <WriteStream for OffsetFileWriteStream>::write_buf async
//@sub? tokio :: task :: spawn_blocking ( move || file . write_all_at ( & buf , offset ) ) . await ? ? ==> file . write_all_at ( & buf , offset ) ?
//@ret r
//@spec
    requires old(self).offset + buf.b@.len() < old(self).end
    ensures r.is_ok() ==> wrote(old(self).file.id(), old(self).offset as int, buf.b@), r.is_ok() ==> final(self).offset == old(self).offset + buf.b@.len(), final(self).end == old(self).end, final(self).file == old(self).file
//@end
}
pub struct FileMultiStreamDestination { pub file: File }
impl FileMultiStreamDestination {
//@fn crates/symbolicator-service/src/download/destination.rs <MultiStreamDestination for FileMultiStreamDestination>::stream
//@sub? Self :: Stream < '_ > ==> OffsetFileWriteStream
//@ret r
//@spec
    requires offset + size < u64::MAX
    ensures r.file.id() == self.file.id(), r.offset == offset, r.room() == size
//@end
}
}
fn main() {}
