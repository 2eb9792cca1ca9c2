use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- what the code depends on ------------------------------------------------------------------------
pub uninterp spec fn read_u64(s: Str) -> Option<u64>;
pub open spec fn plain(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> '!' <= #[trigger] s[i] <= '~' }
#[verifier::external_body]
pub proof fn ax_dec(n: u64) ensures read_u64(dec(n as int)) == Some(n), dec(n as int).len() > 0, forall|i: int| 0 <= i < dec(n as int).len() ==> '0' <= #[trigger] dec(n as int)[i] <= '9' {}
/// trim removes white space at both ends only
#[verifier::external_body]
pub proof fn ax_trim(s: Str) requires s.len() > 0, '!' <= s[0] <= '~', '!' <= s.last() <= '~' ensures s_trim(s) == s {}
pub trait VpParse { fn vp_parse_u64(&self) -> (r: Result<u64, ParseErr>); }
#[derive(Debug)] pub struct ParseErr {}
impl VpParse for str { #[verifier::external_body] fn vp_parse_u64(&self) -> (r: Result<u64, ParseErr>) ensures (match r { Ok(n) => read_u64(self@) == Some(n), Err(_) => read_u64(self@) is None }) { unimplemented!() } }
#[verifier::external_body] pub struct Formatter { f: u8 }
pub struct FmtError {}
impl Formatter {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body] pub fn vp_write_fmt(&mut self, s: &String) -> (r: Result<(), FmtError>) ensures r.is_ok(), final(self).view() =~= old(self).view() + s@ { unimplemented!() }
}
pub trait VpDivCeil { fn vp_div_ceil(self, b: u64) -> (r: u64) requires b != 0; }
impl VpDivCeil for u64 { #[verifier::external_body] fn vp_div_ceil(self, b: u64) -> (r: u64) ensures r as int == (self as int + b as int - 1) / (b as int), self > 0 ==> 1 <= r <= self { self.div_ceil(b) } }
pub trait VpMin { fn vp_min(self, o: u64) -> u64; }
impl VpMin for u64 { fn vp_min(self, o: u64) -> (r: u64) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } }

// ---- text of ranges ------------------------------------------------------------------------------------
pub open spec fn split1(s: Str, c: char) -> Option<(Str, Str)> { if has_char(s, c) { let i = choose|i: int| is_first(s, c, i); Some((s.subrange(0, i), s.subrange(i + 1, s.len() as int))) } else { None } }
pub proof fn lemma_split1(s: Str, c: char, a: Str, b: Str)
    requires s =~= a + seq![c] + b, !has_char(a, c)
    ensures split1(s, c) == Some((a, b))
{
    assert(s[a.len() as int] == c);
    assert(has_char(s, c));
    assert forall|j: int| 0 <= j < a.len() implies s[j] != c by { assert(s[j] == a[j]); }
    assert(is_first(s, c, a.len() as int));
    let i = choose|i: int| is_first(s, c, i);
    assert(i == a.len());
    assert(s.subrange(0, i) =~= a);
    assert(s.subrange(i + 1, s.len() as int) =~= b);
}
pub broadcast proof fn lemma_first_cut(s: Str, c: char, a: Str, b: Str)
    requires #[trigger] is_first(s, c, a.len() as int), s =~= #[trigger] (a + seq![c] + b)
    ensures split1(s, c) == Some((a, b))
{ assert(has_char(s, c)); let k = choose|k: int| is_first(s, c, k); assert(k == a.len()); assert(s.subrange(0, k) =~= a); assert(s.subrange(k + 1, s.len() as int) =~= b); }
/// a byte range within a resource of known size (or of the empty resource)
pub open spec fn inside(a: u64, b: u64, t: u64) -> bool { a <= b && (b < t || b == 0 && t == 0) }
/// the content range a header stands for
pub open spec fn rd(s: Str) -> Option<(u64, u64, u64)> {
    match split1(s_trim(s), ' ') { None => None, Some((unit, u)) =>
    match split1(s_trim(u), '/') { None => None, Some((rng, tot)) =>
    match split1(rng, '-') { None => None, Some((x, y)) =>
    match (read_u64(s_trim(x)), read_u64(s_trim(y)), read_u64(s_trim(tot))) {
        (Some(a), Some(b), Some(t)) => if unit == "bytes"@ && s_trim(rng) != "*"@ && s_trim(tot) != "*"@ && inside(a, b, t) { Some((a, b, t)) } else { None },
        _ => None } } } }
}
pub open spec fn text(a: u64, b: u64, t: u64) -> Str { "bytes"@ + seq![' '] + (dec(a as int) + seq!['-'] + dec(b as int) + seq!['/'] + dec(t as int)) }
/// a well-formed header is read as what it says
pub proof fn lemma_canonical(a: u64, b: u64, t: u64)
    requires inside(a, b, t)
    ensures rd(text(a, b, t)) == Some((a, b, t))
{
    reveal_strlit("bytes"); reveal_strlit("*");
    ax_dec(a); ax_dec(b); ax_dec(t);
    let (x, y, z) = (dec(a as int), dec(b as int), dec(t as int));
    let rng = x + seq!['-'] + y;
    let u = x + seq!['-'] + y + seq!['/'] + z;
    let s = text(a, b, t);
    assert(s.len() == 6 + u.len()); assert(u.len() == rng.len() + 1 + z.len()); assert(rng.len() == x.len() + 1 + y.len());
    assert(s[0] == 'b'); assert(s.last() == u.last()); assert(u.last() == z.last()); assert(u[0] == x[0]);
    assert(rng[0] == x[0]); assert(rng.last() == y.last());
    ax_trim(s); ax_trim(u); ax_trim(rng); ax_trim(x); ax_trim(y); ax_trim(z);
    lemma_split1(s, ' ', "bytes"@, u);
    assert forall|i: int| 0 <= i < rng.len() implies rng[i] != '/' by {}
    lemma_split1(u, '/', rng, z);
    lemma_split1(rng, '-', x, y);
    assert(rng[0] != '*'); assert(z[0] != '*');
    assert("*"@[0] == '*');
}

// ---- the property ------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/download/partial.rs MAX_PARTIAL_RANGES
//@item crates/symbolicator-service/src/download/partial.rs PARTIAL_SPLIT_SIZE
//@item crates/symbolicator-service/src/download/partial.rs INITIAL_RANGE
//@item crates/symbolicator-service/src/download/partial.rs Range
//@item crates/symbolicator-service/src/download/partial.rs BytesContentRange derive=Clone,Copy
//@item crates/symbolicator-service/src/download/partial.rs InvalidBytesRange derive=
pub open spec fn wf(r: BytesContentRange) -> bool { inside(r.start, r.end, r.total_size) }
pub open spec fn size(r: Range) -> int { if r.start > r.end { 0 } else { r.end - r.start + 1 } }
/// consecutive ranges from `at` (the first byte not yet requested) to the end of a resource of `t` bytes: in bounds, without gaps, neighbours share at most a boundary byte
pub open spec fn cover(rs: Seq<Range>, at: int, t: int) -> bool {
    if at >= t { rs.len() == 0 } else {
    &&& rs.len() >= 1 && rs[0].start == at && rs.last().end == t - 1
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).start <= rs[i].end && rs[i].end < t
    &&& forall|i: int| 0 <= i < rs.len() - 1 ==> (#[trigger] rs[i]).end <= rs[i + 1].start <= rs[i].end + 1 }
}
//@fn crates/symbolicator-service/src/download/partial.rs initial_range
//@ret r
//@spec
    ensures r.start == 0, r.start <= r.end
//@end
impl Range {
//@fn crates/symbolicator-service/src/download/partial.rs Range::size
//@ret r
//@spec
    requires self.end - self.start < u64::MAX
    ensures r == size(*self)
//@end
}
impl Range {
//@fn crates/symbolicator-service/src/download/partial.rs <fmt::Display for Range>::fmt
//@sub? fmt :: Formatter < '_ > ==> Formatter
//@sub? fmt :: Result ==> Result < ( ) , FmtError >
//@ret r
//@spec
    ensures final(f).view() =~= old(f).view() + "bytes="@ + dec(self.start as int) + "-"@ + dec(self.end as int)
//@start
    proof { reveal_strlit("bytes="); reveal_strlit("-"); }
//@end
}
pub open spec fn built(rs: Seq<Range>, rem: Range, n: int, ranges: int) -> bool {
    forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).start == rem.start + k * n && rs[k].end == (if k + 1 == ranges { rem.end as int } else { rem.start + k * n + n })
}
/// the k-th of n pieces of m bytes
pub proof fn lemma_in(k: int, m: int, n: int) requires 0 <= k < n, m >= 1 ensures 0 <= k * m, k * m + m == (k + 1) * m, k + 1 < n ==> k * m + 2 * m <= m * n, k * m + m <= m * n
{ assert(0 <= k * m && k * m + m == (k + 1) * m && k * m + m <= m * n) by (nonlinear_arith) requires 0 <= k < n, m >= 1; if k + 1 < n { assert(k * m + 2 * m <= m * n) by (nonlinear_arith) requires 0 <= k, k + 2 <= n, m >= 1; } }
pub broadcast proof fn lemma_built(rs: Seq<Range>, rem: Range, m: int, n: int)
    requires #[trigger] built(rs, rem, m, n), rs.len() == n, n >= 1, m >= 1, m * n <= rem.end - rem.start + 1, rem.start <= rem.end
    ensures cover(rs, rem.start as int, rem.end + 1)
{
    assert(rs[0].start == rem.start + 0 * m); assert(rs.last().end == rem.end);
    assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).start <= rs[i].end && rs[i].end < rem.end + 1 by { lemma_in(i, m, n); }
    assert forall|i: int| 0 <= i < rs.len() - 1 implies (#[trigger] rs[i]).end <= rs[i + 1].start <= rs[i].end + 1 by { lemma_in(i, m, n); assert(rs[i + 1].start == rem.start + (i + 1) * m); }
}
pub broadcast proof fn lemma_div(a: int, b: int) requires 1 <= b <= a ensures #[trigger] (a / b) >= 1, (a / b) * b <= a
{ assert(a / b >= 1 && (a / b) * b <= a) by (nonlinear_arith) requires 1 <= b <= a; }
//@fn crates/symbolicator-service/src/download/partial.rs split
//@sub? impl Iterator < Item = Range > ==> Vec < Range >
//@sub? None . into_iter ( ) . flatten ( ) ==> Vec :: new ( )
//@sub? Some ( ( 0 .. ranges ) ==> ( 0 .. ranges ) . into_iter ( )
//@sub? ) . into_iter ( ) . flatten ( ) ==> . collect ( )
//@ret v
//@spec
    requires wf(r)
    ensures cover(v@, r.end + 1, r.total_size as int), v@.len() <= 4
//@start
    broadcast use {lemma_div, lemma_built};
//@loop 0
    invariant wf(r), 1 <= ranges <= 4, remainder.start == r.end + 1, remainder.end == r.total_size - 1, remainder.start <= remainder.end, r.total_size > 0,
        1 <= range_size, range_size * ranges <= remainder.end - remainder.start + 1,
        vp_acc@.len() == vp_p, built(vp_acc@, remainder, range_size as int, ranges as int)
//@body 0
    proof { lemma_in(vp_p as int, range_size as int, ranges as int); }
//@end

impl BytesContentRange {
//@fn crates/symbolicator-service/src/download/partial.rs BytesContentRange::range
//@ret r
//@spec
    ensures r.start == self.start, r.end == self.end
//@end
//@fn crates/symbolicator-service/src/download/partial.rs <FromStr for BytesContentRange>::from_str
//@sub? Self :: Err ==> InvalidBytesRange
//@sub? Some ( ( "bytes" , s ) ) = s . trim ( ) . split_once ( ' ' ) ==> Some ( ( _ , s ) ) = vp_unit ( s . trim ( ) . split_once ( ' ' ) , "bytes" )
//@sub? . parse ( ) ==> . vp_parse_u64 ( )
//@ret r
//@start
    broadcast use lemma_first_cut; proof { reveal_strlit("bytes"); reveal_strlit("*"); }
//@spec
    ensures (match r { Ok(x) => rd(s@) == Some((x.start, x.end, x.total_size)) && wf(x), Err(_) => rd(s@) is None })
//@end
}
#[verifier::external_body]
pub fn vp_unit<'a>(p: Option<(&'a str, &'a str)>, unit: &str) -> (r: Option<(&'a str, &'a str)>) ensures r == (match p { Some((a, b)) => if a@ == unit@ { Some((a, b)) } else { None }, None => None }) { unimplemented!() }

impl BytesContentRange {
//@fn crates/symbolicator-service/src/download/partial.rs BytesContentRange::from_response
//@sub? reqwest :: Response ==> Response
//@sub? . get ( reqwest :: header :: CONTENT_RANGE ) ==> . vp_content_range ( )
//@sub? s . parse ( ) ==> BytesContentRange :: from_str ( s )
//@ret r
//@spec
    ensures (match (r, told(*response)) { (None, None) => true, (Some(Ok(x)), Some(Some(t))) => wf(x) && t == (x.start, x.end, x.total_size), (Some(Err(_)), Some(None)) => true, _ => false })
//@end
}
// ---- requests, answers and the file (reqwest, the destination: by contract) ------------------------------
pub struct StatusCode { pub c: u16 }
impl StatusCode {
    pub const PARTIAL_CONTENT: StatusCode = StatusCode { c: 206 };
    pub const RANGE_NOT_SATISFIABLE: StatusCode = StatusCode { c: 416 };
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.c < 300) { 200 <= self.c && self.c < 300 }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for StatusCode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &StatusCode) -> bool { self.c == o.c } }
impl PartialEq for StatusCode { #[verifier::external_body] fn eq(&self, o: &StatusCode) -> bool { self.c == o.c } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BytesContentRange { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BytesContentRange) -> bool { self.start == o.start && self.end == o.end && self.total_size == o.total_size } }
impl PartialEq for BytesContentRange { #[verifier::external_body] fn eq(&self, o: &BytesContentRange) -> bool { unimplemented!() } }
pub type Duration = u128;
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] pub fn status_to_error(source: &String, s: StatusCode) -> CacheError { unimplemented!() }

/// what the body of an answer is: the whole resource, or the range its header names (nothing else may be stored)
#[verifier::external_body] pub struct HeaderValue { h: u8 }
#[derive(Debug)] pub struct ToStrError {}
pub struct HeaderMap { pub range: Option<HeaderValue> }
/// reqwest: an answer, its status and its Content-Range
#[verifier::external_body] pub struct Response { h: u8 }
impl HeaderValue { pub uninterp spec fn text(&self) -> Option<Str>; #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, ToStrError>) ensures (match r { Ok(s) => self.text() == Some(s@), Err(_) => self.text() is None }) { unimplemented!() } }
impl HeaderMap { #[verifier::external_body] pub fn vp_content_range(&self) -> (r: Option<&HeaderValue>) ensures (match r { Some(x) => self.range == Some(*x), None => self.range is None }) { unimplemented!() } }
impl Response {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn hdr(&self) -> Option<HeaderValue>;
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.c == self.code() { unimplemented!() }
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures r.range == self.hdr() { unimplemented!() }
}
/// the range an answer holds; None: the full resource (any other success), Some(None): unknown
pub open spec fn told(r: Response) -> Option<Option<(u64, u64, u64)>> {
    if r.code() != 206 { None } else { Some(match r.hdr() { Some(h) => match h.text() { Some(s) => rd(s), None => None }, None => None }) }
}

pub fn drop<T>(t: T) {}
/// where the bytes of a destination go: from `at`, `len` of them (None: to the end)
pub struct Stream { pub at: Ghost<int>, pub len: Ghost<Option<int>> }
pub open spec fn all(s: Stream) -> bool { s.at@ == 0 && s.len@ is None }
pub struct Streams { pub size: Ghost<Option<int>> }
impl Streams {
    #[verifier::external_body] pub fn set_size(&mut self, n: u64) -> (r: Result<(), CacheError>) ensures r.is_ok() ==> final(self).size@ == Some(n as int) { unimplemented!() }
    /// a stream must lie inside of the file
    #[verifier::external_body] pub fn stream(&self, at: u64, len: u64) -> (r: Stream) requires self.size@ is Some, at + len <= self.size@.unwrap() ensures r.at@ == at, r.len@ == Some(len as int) { unimplemented!() }
    #[verifier::external_body] pub fn into_write(self) -> (r: Stream) ensures all(r) { unimplemented!() }
    #[verifier::external_body] pub fn vp_flush(&mut self) -> (r: Result<(), CacheError>) ensures final(self).size == old(self).size { unimplemented!() }
}
pub struct Measure {}
impl Measure { #[verifier::external_body] pub fn set_streams(&self, n: usize) { unimplemented!() } }
/// a request: the range it asks for
pub struct SymRequest { pub measure: Measure, pub range: Ghost<Option<(u64, u64)>> }
impl SymRequest {
    #[verifier::external_body] pub fn to_source(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn try_clone(&self) -> (r: Option<SymRequest>) ensures r.is_some() ==> r.unwrap().range == self.range { unimplemented!() }
    #[verifier::external_body] pub fn with_range(self, r: Range) -> (q: SymRequest) ensures q.range@ == Some((r.start, r.end)) { unimplemented!() }
    /// a partial answer is only given to a request for a range
    #[verifier::external_body] pub fn execute(self) -> (r: Result<SymResponse, CacheError>) ensures r.is_ok() && self.range@ is None ==> r->Ok_0.response.code() != 206 { unimplemented!() }
}
pub struct SymResponse { pub response: Response }
/// the body of an answer may be stored in the stream: the full resource, or the range the stream is for
pub open spec fn fits(r: Response, s: Stream) -> bool { match told(r) { None => 200 <= r.code() < 300 && all(s), Some(Some((a, b, t))) => s.at@ == a && s.len@ == Some(b - a + 1), Some(None) => false } }
/// a download under way: the bytes it stores at their place
pub struct Part { pub r: Ghost<Range>, pub total: Ghost<u64> }
pub enum Either { Left(Part), Right(Part) }
impl Part { pub fn send(self) -> (r: Part) ensures r == self { self } }
pub open spec fn one(e: Either) -> Part { match e { Either::Left(p) => p, Either::Right(p) => p } }
pub struct FuturesUnordered { pub parts: Ghost<Seq<Range>>, pub total: Ghost<u64> }
impl FuturesUnordered {
    #[verifier::external_body] pub fn new() -> (r: FuturesUnordered) ensures r.parts@ == Seq::<Range>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, e: Either) requires old(self).parts@.len() > 0 ==> old(self).total@ == one(e).total@ ensures final(self).parts@ == old(self).parts@.push(one(e).r@), final(self).total@ == one(e).total@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    /// waiting for the parts is the whole download only if they are the whole file
    #[verifier::external_body] pub fn vp_join(&mut self) -> (r: Result<(), CacheError>) requires cover(old(self).parts@, 0, old(self).total@ as int), old(self).parts@.len() <= 5 { unimplemented!() }
}
impl SymResponse {
//@fn crates/symbolicator-service/src/download/mod.rs SymResponse::status
//@ret r
//@spec
    ensures r.c == self.response.code()
//@end
//@fn crates/symbolicator-service/src/download/mod.rs SymResponse::content_range
//@sub? partial :: BytesContentRange ==> BytesContentRange
//@sub? partial :: InvalidBytesRange ==> InvalidBytesRange
//@ret r
//@spec
    ensures (match (r, told(self.response)) { (None, None) => true, (Some(Ok(x)), Some(Some(t))) => wf(x) && t == (x.start, x.end, x.total_size), (Some(Err(_)), Some(None)) => true, _ => false })
//@end
    #[verifier::external_body] pub fn download(self, s: Stream) -> (r: CacheContents) requires fits(self.response, s) { unimplemented!() }
    #[verifier::external_body] pub fn vp_head(self, s: Stream) -> (r: Part) requires fits(self.response, s), told(self.response) matches Some(Some(_)) ensures told(self.response).unwrap().unwrap() == (r.r@.start, r.r@.end, r.total@) { unimplemented!() }
}
pub open spec fn part_fits(p: BytesContentRange, s: Stream) -> bool { wf(p) && p.total_size > 0 && s.at@ == p.start && s.len@ == Some(p.end - p.start + 1) }
/// the contract of do_download_reqwest_part (below) as a future
#[verifier::external_body] pub fn vp_part(request: SymRequest, part: BytesContentRange, destination: Stream) -> (r: Part) requires part_fits(part, destination) ensures r.r@.start == part.start, r.r@.end == part.end, r.total@ == part.total_size { unimplemented!() }
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest_part async stub=download,execute,status_to_error,to_source,with_range,drop,new,set_streams,try_clone
//@sub? SymRequest < '_ > ==> SymRequest
//@sub? impl WriteStream ==> Stream
//@ret r
//@spec
    requires part_fits(part, destination)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest async stub=download,execute,status_to_error,to_source,with_range,drop,new,set_streams,try_clone
//@sub? SymRequest < '_ > ==> SymRequest
//@sub? impl WriteStream ==> Stream
//@ret r
//@spec
    requires request.range@ is None, all(destination)
//@end
//@fn crates/symbolicator-service/src/download/mod.rs do_download_reqwest_range async stub=download,execute,status_to_error,to_source,with_range,drop,new,set_streams,try_clone while=0 keep=ok_or
//@sub? SymRequest < '_ > ==> SymRequest
//@sub? impl MultiStreamDestination ==> Streams
//@sub? std :: pin :: pin ! ( destination . into_write ( ) ) ==> destination . into_write ( )
//@sub? partial :: initial_range ==> initial_range
//@sub? partial :: split ==> split
//@sub? response . download ( destination . stream ( ==> response . vp_head ( destination . stream (
//@sub? do_download_reqwest_part ( ==> vp_part (
//@sub while futures . try_next ( ) . await ? . is_some ( ) { } ==> futures . vp_join ( ) ? ;
//@ret r
//@spec
    requires request.range@ is None
//@loop 0
    invariant wf(content_range), content_range.start == 0, content_range.total_size > 0, destination.size@ == Some(content_range.total_size as int), request.range@ is None,
        cover(vp_v0@, content_range.end + 1, content_range.total_size as int), vp_v0@.len() <= 4, vp_i0 <= vp_v0@.len(),
        futures.total@ == content_range.total_size, futures.parts@.len() == vp_i0 + 1, futures.parts@[0].start == 0, futures.parts@[0].end == content_range.end,
        forall|k: int| 0 <= k < vp_i0 ==> (#[trigger] futures.parts@[k + 1]).start == vp_v0@[k].start && futures.parts@[k + 1].end == vp_v0@[k].end
    decreases vp_v0@.len() - vp_i0
//@end
} // verus!
fn main() {}
