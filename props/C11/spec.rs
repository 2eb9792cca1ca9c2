use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- what the code depends on ------------------------------------------------------------------------
pub type Duration = u128;
pub open spec fn utf8(s: Str) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub mod io { use super::*;
    pub struct Error { pub e: u8 }
}
/// humantime: a text for every duration that reads back as the same duration
pub uninterp spec fn dur_text(d: Duration) -> Str;
pub uninterp spec fn dur_read(s: Str) -> Option<Duration>;
#[verifier::external_body]
pub broadcast proof fn ax_dur(d: Duration) ensures dur_read(#[trigger] dur_text(d)) == Some(d), nul_free(dur_text(d)) {}
pub struct Formatted { pub d: Ghost<Duration> }
impl VpDisp for Formatted { open spec fn disp(&self) -> Str { dur_text(self.d@) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl Formatted { #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == dur_text(self.d@) { unimplemented!() } }
#[verifier::external_body] pub fn format_duration(d: Duration) -> (r: Formatted) ensures r.d@ == d { unimplemented!() }
#[verifier::external_body] pub fn parse_duration(s: &str) -> (r: Result<Duration, io::Error>) ensures (match dur_read(s@) { Some(d) => r == Ok::<Duration, io::Error>(d), None => r.is_err() }) { unimplemented!() }
/// String::from_utf8_lossy keeps well formed text
pub uninterp spec fn lossy(b: Seq<u8>) -> Str;
#[verifier::external_body]
pub broadcast proof fn ax_lossy(s: Str) ensures lossy(#[trigger] vstd::utf8::encode_utf8(s)) == s {}
#[verifier::external_body] pub fn vp_from_utf8_lossy(b: &[u8]) -> (r: VpCow<'_>) ensures r.view() == lossy(b@) { unimplemented!() }
impl<'a> core::ops::Deref for VpCow<'a> { type Target = str; #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() } }
impl<'a> VpCow<'a> { #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.view() { unimplemented!() } }
pub trait VpBytes { spec fn bts(&self) -> Seq<u8>; fn vp_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bts(); }
impl VpBytes for String { open spec fn bts(&self) -> Seq<u8> { utf8(self@) } fn vp_as_bytes(&self) -> (r: &[u8]) { self.as_str().as_bytes() } }
pub trait VpBSlice {
    fn vp_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>);
    fn vp_split_b(&self, b: u8) -> (r: BSplit<'_>);
}
pub open spec fn bpre(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
pub struct BSplit<'a> { pub s: &'a [u8], pub b: u8, pub first: bool }
impl VpBSlice for [u8] {
    #[verifier::external_body] fn vp_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>) ensures (match r { Some(x) => bpre(self@, p@) && x@ == self@.skip(p@.len() as int), None => !bpre(self@, p@) }) { unimplemented!() }
    fn vp_split_b(&self, b: u8) -> (r: BSplit<'_>) ensures r.s@ == self@, r.b == b, r.first { BSplit { s: self, b, first: true } }
}
/// the bytes before the first b
pub open spec fn before(s: Seq<u8>, b: u8) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 || s[0] == b { Seq::empty() } else { seq![s[0]] + before(s.skip(1), b) } }
impl<'a> BSplit<'a> { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a [u8]>) ensures old(self).first ==> r.is_some() && r.unwrap()@ == before(old(self).s@, old(self).b) { unimplemented!() } }
/// a file: its bytes and the position of the cursor
#[verifier::external_body] pub struct File { f: u8 }
pub open spec fn over(b: Seq<u8>, at: nat, d: Seq<u8>) -> Seq<u8> {
    let pre = if at <= b.len() { b.take(at as int) } else { b + Seq::new((at - b.len()) as nat, |i: int| 0u8) };
    pre + d + (if at + d.len() < b.len() { b.skip((at + d.len()) as int) } else { Seq::empty() })
}
impl File {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    /// the file the handle is one of
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn vp_from_std(f: StdFile) -> (r: File) ensures r.id() == f.id() { unimplemented!() }
    #[verifier::external_body] pub fn rewind(&mut self) -> (r: Result<(), io::Error>) ensures r.is_ok() ==> final(self).pos() == 0 && final(self).id() == old(self).id() && final(self).bytes() == old(self).bytes() { unimplemented!() }
    #[verifier::external_body] pub fn vp_write_all(&mut self, d: &[u8]) -> (r: Result<(), io::Error>) ensures r.is_ok() ==> final(self).pos() == old(self).pos() + d@.len() && final(self).id() == old(self).id() && final(self).bytes() == over(old(self).bytes(), old(self).pos(), d@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_flush(&mut self) -> (r: Result<(), io::Error>) ensures r.is_ok() ==> final(self).pos() == old(self).pos() && final(self).id() == old(self).id() && final(self).bytes() == old(self).bytes() { unimplemented!() }
    #[verifier::external_body] pub fn stream_position(&mut self) -> (r: Result<u64, io::Error>) ensures r.is_ok() ==> r->Ok_0 == old(self).pos() && final(self).pos() == old(self).pos() && final(self).id() == old(self).id() && final(self).bytes() == old(self).bytes() { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&mut self, n: u64) -> (r: Result<(), io::Error>) ensures r.is_ok() ==> final(self).pos() == old(self).pos() && final(self).id() == old(self).id() && final(self).bytes() == (if n <= old(self).bytes().len() { old(self).bytes().take(n as int) } else { old(self).bytes() + Seq::new((n - old(self).bytes().len()) as nat, |i: int| 0u8) }) { unimplemented!() }
}
#[verifier::external_body] pub struct ByteView { b: u8 }
impl ByteView { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
impl core::ops::Deref for ByteView { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() } }

// ---- the property ------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T> = Result<T, CacheError>;
//@bytes crates/symbolicator-service/src/caching/cache_error.rs CacheError::MALFORMED_MARKER
//@bytes crates/symbolicator-service/src/caching/cache_error.rs CacheError::PERMISSION_DENIED_MARKER
//@bytes crates/symbolicator-service/src/caching/cache_error.rs CacheError::TIMEOUT_MARKER
//@bytes crates/symbolicator-service/src/caching/cache_error.rs CacheError::DOWNLOAD_ERROR_MARKER
//@bytes crates/symbolicator-service/src/caching/cache_error.rs CacheError::UNSUPPORTED_MARKER
pub open spec fn nul_free(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 != 0 }
/// a message up to its first NUL character
pub open spec fn cut(s: Str) -> Str
    decreases s.len()
{ if s.len() == 0 || s[0] as u32 == 0 { Seq::empty() } else { seq![s[0]] + cut(s.skip(1)) } }
pub enum V { NotFound, Denied(Str), Timeout(Duration), Download(Str), Malformed(Str), Unsupported(Str), Internal }
pub open spec fn v(e: CacheError) -> V { match e { CacheError::NotFound => V::NotFound, CacheError::PermissionDenied(s) => V::Denied(s@), CacheError::Timeout(d) => V::Timeout(d), CacheError::DownloadError(s) => V::Download(s@), CacheError::Malformed(s) => V::Malformed(s@), CacheError::Unsupported(s) => V::Unsupported(s@), CacheError::InternalError => V::Internal } }
pub open spec fn cut_v(e: V) -> V { match e { V::Denied(s) => V::Denied(cut(s)), V::Download(s) => V::Download(cut(s)), V::Malformed(s) => V::Malformed(cut(s)), V::Unsupported(s) => V::Unsupported(cut(s)), _ => e } }
pub open spec fn whole(e: V) -> bool { match e { V::Denied(s) => nul_free(s), V::Download(s) => nul_free(s), V::Malformed(s) => nul_free(s), V::Unsupported(s) => nul_free(s), _ => true } }
/// the content of the file of an error
pub open spec fn enc(e: V) -> Seq<u8> { match e {
    V::NotFound => Seq::empty(),
    V::Denied(s) => PERMISSION_DENIED_MARKER_b() + utf8(s),
    V::Timeout(d) => TIMEOUT_MARKER_b() + utf8(dur_text(d)),
    V::Download(s) => DOWNLOAD_ERROR_MARKER_b() + utf8(s),
    V::Malformed(s) => MALFORMED_MARKER_b() + utf8(s),
    V::Unsupported(s) => UNSUPPORTED_MARKER_b() + utf8(s),
    V::Internal => Seq::empty(),
} }
pub open spec fn msg(b: Seq<u8>, p: Seq<u8>) -> Str { lossy(before(b.skip(p.len() as int), 0)) }
/// the error a file content stands for; None: a positive entry
pub open spec fn dec_b(b: Seq<u8>) -> Option<V> {
    if b.len() == 0 { Some(V::NotFound) }
    else if bpre(b, PERMISSION_DENIED_MARKER_b()) { Some(V::Denied(msg(b, PERMISSION_DENIED_MARKER_b()))) }
    else if bpre(b, TIMEOUT_MARKER_b()) { Some(match dur_read(msg(b, TIMEOUT_MARKER_b())) { Some(d) => V::Timeout(d), None => V::Internal }) }
    else if bpre(b, DOWNLOAD_ERROR_MARKER_b()) { Some(V::Download(msg(b, DOWNLOAD_ERROR_MARKER_b()))) }
    else if bpre(b, MALFORMED_MARKER_b()) { Some(V::Malformed(msg(b, MALFORMED_MARKER_b()))) }
    else if bpre(b, UNSUPPORTED_MARKER_b()) { Some(V::Unsupported(msg(b, UNSUPPORTED_MARKER_b()))) }
    else { None }
}
pub open spec fn marked(b: Seq<u8>) -> bool { bpre(b, PERMISSION_DENIED_MARKER_b()) || bpre(b, TIMEOUT_MARKER_b()) || bpre(b, DOWNLOAD_ERROR_MARKER_b()) || bpre(b, MALFORMED_MARKER_b()) || bpre(b, UNSUPPORTED_MARKER_b()) }

impl CacheError {
//@fn crates/symbolicator-service/src/caching/cache_error.rs CacheError::write async
//@sub? Self :: MALFORMED_MARKER ==> MALFORMED_MARKER ( )
//@sub? Self :: PERMISSION_DENIED_MARKER ==> PERMISSION_DENIED_MARKER ( )
//@sub? Self :: TIMEOUT_MARKER ==> TIMEOUT_MARKER ( )
//@sub? Self :: DOWNLOAD_ERROR_MARKER ==> DOWNLOAD_ERROR_MARKER ( )
//@sub? Self :: UNSUPPORTED_MARKER ==> UNSUPPORTED_MARKER ( )
//@ret r
//@spec
    ensures r.is_ok() ==> final(file).id() == old(file).id() && final(file).bytes() == (if *self is InternalError { old(file).bytes() } else { enc(v(*self)) })
//@end
//@fn crates/symbolicator-service/src/caching/cache_error.rs CacheError::from_bytes
//@sub? Self :: MALFORMED_MARKER ==> MALFORMED_MARKER ( )
//@sub? Self :: PERMISSION_DENIED_MARKER ==> PERMISSION_DENIED_MARKER ( )
//@sub? Self :: TIMEOUT_MARKER ==> TIMEOUT_MARKER ( )
//@sub? Self :: DOWNLOAD_ERROR_MARKER ==> DOWNLOAD_ERROR_MARKER ( )
//@sub? Self :: UNSUPPORTED_MARKER ==> UNSUPPORTED_MARKER ( )
//@ret r
//@spec
    ensures (match r { Some(e) => dec_b(bytes@) == Some(v(e)), None => dec_b(bytes@) is None })
//@end
}
//@fn crates/symbolicator-service/src/caching/cache_error.rs utf8_message
//@sub? . split ( | c | * c == ==> . vp_split_b (
//@sub? String :: from_utf8_lossy ==> vp_from_utf8_lossy
//@sub? Cow < '_ , str > ==> VpCow < '_ >
//@ret r
//@spec
    ensures r.view() == lossy(before(raw_message@, 0))
//@end
pub trait VpNeg { fn vp_negative(self) -> (r: Option<CacheContents<ByteView>>); }
impl VpNeg for Option<CacheError> { fn vp_negative(self) -> (r: Option<CacheContents<ByteView>>) ensures (match self { Some(e) => r == Some(Err::<ByteView, CacheError>(e)), None => r is None }) { match self { Some(e) => Some(Err(e)), None => None } } }
//@fn crates/symbolicator-service/src/caching/cache_error.rs cache_contents_from_bytes
//@sub? . map ( Err ) ==> . vp_negative ( )
//@sub? ByteView < 'static > ==> ByteView
//@ret r
//@spec
    ensures (match r { Ok(b) => b == bytes && dec_b(bytes.bytes()) is None, Err(e) => dec_b(bytes.bytes()) == Some(v(e)) })
//@end

// ---- theorems ----------------------------------------------------------------------------------------
proof fn lemma_scalar(c: u32)
    requires c != 0
    ensures forall|i: int| 0 <= i < vstd::utf8::encode_scalar(c).len() ==> vstd::utf8::encode_scalar(c)[i] != 0
{
    assert(forall|x: u8| (0x80u8 | x) != 0 && (x | 0x80u8) != 0) by (bit_vector);
    assert(forall|x: u8| (0xC0u8 | x) != 0 && (x | 0xC0u8) != 0) by (bit_vector);
    assert(forall|x: u8| (0xE0u8 | x) != 0 && (x | 0xE0u8) != 0) by (bit_vector);
    assert(forall|x: u8| (0xF0u8 | x) != 0 && (x | 0xF0u8) != 0) by (bit_vector);
    assert(c < 128 ==> (c as u8) != 0) by (bit_vector) requires c != 0;
    assert(c < 128 ==> ((c & 0x7f) as u8) != 0) by (bit_vector) requires c != 0;
    assert(vstd::utf8::leading_byte_width_1(c) != 0 || c >= 128);
    assert(vstd::utf8::leading_byte_width_2(c) != 0);
    assert(vstd::utf8::leading_byte_width_3(c) != 0);
    assert(vstd::utf8::leading_byte_width_4(c) != 0);
    assert(vstd::utf8::last_continuation_byte(c) != 0);
    assert(vstd::utf8::second_last_continuation_byte(c) != 0);
    assert(vstd::utf8::third_last_continuation_byte(c) != 0);
}
proof fn lemma_before(a: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] != 0
    ensures before(a + t, 0) == a + before(t, 0)
    decreases a.len()
{
    if a.len() == 0 { assert(a + t =~= t); assert(a + before(t, 0) =~= before(t, 0)); }
    else { lemma_before(a.skip(1), t); assert((a + t).skip(1) =~= a.skip(1) + t); assert(seq![a[0]] + (a.skip(1) + before(t, 0)) =~= a + before(t, 0)); }
}
/// cutting the bytes at the first NUL byte is cutting the text at the first NUL character
proof fn lemma_cut(s: Str)
    ensures before(utf8(s), 0) == utf8(cut(s))
    decreases s.len()
{
    if s.len() == 0 { assert(utf8(s) =~= Seq::<u8>::empty()); assert(cut(s) =~= s); }
    else {
        let t = s.drop_first(); assert(t =~= s.skip(1)); assert(s.first() == s[0]);
        assert(utf8(s) == vstd::utf8::encode_scalar(s[0] as u32) + utf8(t));
        if s[0] as u32 == 0 { assert((0u32 & 0x7f) as u8 == 0) by (bit_vector); assert(vstd::utf8::encode_scalar(0)[0] == 0); assert(utf8(s)[0] == 0); assert(utf8(cut(s)) =~= Seq::<u8>::empty()); }
        else {
            lemma_scalar(s[0] as u32); lemma_cut(t); lemma_before(vstd::utf8::encode_scalar(s[0] as u32), utf8(t));
            let c = cut(s); assert(c.len() > 0 && c.first() == s[0] && c.drop_first() =~= cut(t));
            assert(utf8(c) == vstd::utf8::encode_scalar(s[0] as u32) + utf8(cut(t)));
        }
    }
}
proof fn lemma_whole(s: Str)
    requires nul_free(s)
    ensures cut(s) == s
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) as u32 != 0 by { assert(s[i + 1] as u32 != 0); } assert(s[0] as u32 != 0); lemma_whole(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(cut(s) =~= s); } }
proof fn lemma_msg(p: Seq<u8>, s: Str)
    ensures bpre(p + utf8(s), p), msg(p + utf8(s), p) == cut(s)
{ ax_lossy(cut(s)); lemma_cut(s); assert((p + utf8(s)).take(p.len() as int) =~= p); assert((p + utf8(s)).skip(p.len() as int) =~= utf8(s)); }
proof fn lemma_differ(b: Seq<u8>, p: Seq<u8>, q: Seq<u8>, i: int)
    requires bpre(b, p), 0 <= i < p.len(), i < q.len(), p[i] != q[i]
    ensures !bpre(b, q)
{ assert(b.take(p.len() as int)[i] == p[i]); if bpre(b, q) { assert(b.take(q.len() as int)[i] == q[i]); } }
/// every stored error reads back: same kind, same message (up to a NUL character)
pub proof fn theorem_round_trip(e: CacheError)
    requires !(e is InternalError)
    ensures dec_b(enc(v(e))) == Some(cut_v(v(e))), whole(v(e)) ==> dec_b(enc(v(e))) == Some(v(e))
{
    let d = PERMISSION_DENIED_MARKER_b(); let t = TIMEOUT_MARKER_b(); let w = DOWNLOAD_ERROR_MARKER_b(); let m = MALFORMED_MARKER_b(); let u = UNSUPPORTED_MARKER_b();
    let b = enc(v(e));
    match v(e) {
        V::Denied(s) => { lemma_msg(d, s); if nul_free(s) { lemma_whole(s); } }
        V::Timeout(x) => { lemma_msg(t, dur_text(x)); ax_dur(x); lemma_whole(dur_text(x)); lemma_differ(b, t, d, 0); }
        V::Download(s) => { lemma_msg(w, s); if nul_free(s) { lemma_whole(s); } lemma_differ(b, w, d, 0); lemma_differ(b, w, t, 0); }
        V::Malformed(s) => { lemma_msg(m, s); if nul_free(s) { lemma_whole(s); } lemma_differ(b, m, d, 0); lemma_differ(b, m, t, 0); lemma_differ(b, m, w, 0); }
        V::Unsupported(s) => { lemma_msg(u, s); if nul_free(s) { lemma_whole(s); } lemma_differ(b, u, d, 0); lemma_differ(b, u, t, 0); lemma_differ(b, u, w, 0); lemma_differ(b, u, m, 0); }
        _ => {}
    }
}
/// content without a marker is a positive entry, and an empty file is "not found"
pub proof fn theorem_positive(b: Seq<u8>)
    ensures dec_b(b) is None <==> b.len() > 0 && !marked(b), b.len() == 0 ==> dec_b(b) == Some(V::NotFound)
{}

// ---- what is stored for a computed entry -------------------------------------------------------------
#[verifier::external_body] pub struct StdFile { f: u8 }
impl StdFile { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] pub struct NamedTempFile { f: u8 }
impl NamedTempFile { pub uninterp spec fn id(&self) -> int; pub uninterp spec fn blank(&self) -> bool;
    #[verifier::external_body] pub fn reopen(&self) -> (r: Result<StdFile, io::Error>) ensures r.is_ok() ==> r->Ok_0.id() == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn as_file(&self) -> (r: &StdFile) ensures r.id() == self.id() { unimplemented!() } }
impl ByteView { pub uninterp spec fn of(&self) -> int;
    #[verifier::external_body] pub fn map_file_ref(f: &StdFile) -> (r: Result<ByteView, io::Error>) ensures r.is_ok() ==> r->Ok_0.of() == f.id() { unimplemented!() } }
pub struct CacheKey { pub k: u8 }
pub struct Metadata { pub m: u8 }
impl Metadata { #[verifier::external_body] pub fn from_key(k: &CacheKey) -> Metadata { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/metadata.rs CacheEntry
/// what becomes an error of an entry (From<io::Error>: an InternalError, C15)
pub trait VpErr { spec fn ev(self) -> CacheError; fn vp_into(self) -> (r: CacheError) ensures r == self.ev(); }
impl VpErr for io::Error { open spec fn ev(self) -> CacheError { CacheError::InternalError } fn vp_into(self) -> CacheError { CacheError::InternalError } }
impl VpErr for CacheError { open spec fn ev(self) -> CacheError { self } fn vp_into(self) -> CacheError { self } }
impl<T> CacheEntry<T> {
//@fn crates/symbolicator-service/src/caching/metadata.rs CacheEntry::contents as=contents
//@ret r
//@spec
    ensures *r == self.contents
//@end
//@fn crates/symbolicator-service/src/caching/metadata.rs CacheEntry::from_err as=from_err
//@sub? impl Into < CacheError > ==> impl VpErr
//@sub? e . into ( ) ==> e . vp_into ( )
//@ret r
//@spec
    ensures r.contents == Err::<T, CacheError>(e.ev())
//@end
}
/// the kind of request: what it computes goes to the file it is given, and `load` reads what is stored
pub trait CacheItemRequest: Sized { type Item;
    fn compute(&self, t: &mut NamedTempFile) -> (r: Result<(), CacheError>) requires old(t).blank() ensures final(t).id() == old(t).id();
    spec fn loaded(&self, b: ByteView) -> Result<Self::Item, CacheError>;
    fn load(&self, b: ByteView) -> (r: Result<Self::Item, CacheError>) ensures r == self.loaded(b);
}
pub open spec fn load_of<T: CacheItemRequest>(q: T, c: Result<ByteView, CacheError>) -> Result<T::Item, CacheError> { match c { Ok(b) => q.loaded(b), Err(e) => Err(e) } }
impl CacheEntry<ByteView> { #[verifier::external_body] pub fn vp_and_load<T: CacheItemRequest>(self, q: &T) -> (r: CacheEntry<T::Item>) ensures r.contents == load_of(*q, self.contents) { unimplemented!() } }
/// the file contains what the entry says: the bytes of its view, or the text of its error
pub open spec fn tells(t: NamedTempFile, c: Result<ByteView, CacheError>) -> bool {
    match c { Ok(b) => b.of() == t.id(), Err(e) => !(e is InternalError) && exists|f: File| #[trigger] f.id() == t.id() && f.bytes() == enc(v(e)) }
}
/// a file that tells these contents was stored for the key
pub uninterp spec fn kept(k: CacheKey, c: Result<ByteView, CacheError>) -> bool;
pub struct Cache { pub c: u8 }
impl Cache { #[verifier::external_body] pub fn tempfile(&self) -> (r: Result<NamedTempFile, io::Error>) ensures r matches Ok(t) ==> t.blank() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> &'static str { unimplemented!() } }
pub enum CacheStoreReason { New, Refresh }
pub struct CacherRest<T> { p: core::marker::PhantomData<T> }
pub struct Cacher<T> { pub config: Cache, pub rest: CacherRest<T> }
#[verifier::external_body] pub struct SharedCacheService { s: u8 }
impl SharedCacheService { #[verifier::external_body] pub fn fetch(&self, name: &'static str, at: &String, f: File) -> bool { unimplemented!() } }
impl CacheKey { #[verifier::external_body] pub fn cache_path(&self, v: u32) -> String { unimplemented!() } }
impl<T: CacheItemRequest> Cacher<T> {
    pub uninterp spec fn shares(&self, q: T) -> bool;
    #[verifier::external_body] fn shared_cache(&self, q: &T) -> (r: Option<&SharedCacheService>) ensures r.is_some() == self.shares(*q) { unimplemented!() }
    #[verifier::external_body] fn store_in_shared_cache(&self, q: &T, k: &CacheKey, e: &CacheEntry<ByteView>, r: CacheStoreReason) { unimplemented!() }
    /// the temp file becomes the file of the key (C12)
    #[verifier::external_body] fn write_cache_file(&self, k: &CacheKey, e: &CacheEntry<ByteView>, t: NamedTempFile, is_refresh: bool) requires tells(t, e.contents) ensures kept(*k, e.contents) { unimplemented!() }
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::load_from_shared_cache async stub=shared_cache,cache_path,fetch,name
//@sub? T :: VERSIONS . current ==> 0
//@sub? ByteView < 'static > ==> ByteView
//@sub? tokio :: fs :: File :: from_std ( ==> File :: vp_from_std (
//@sub? temp_file : & NamedTempFile ==> temp_file : &mut NamedTempFile
//@ret r
//@spec
    // a fetch writes to the file, so a caller may count on its being blank only where there is no shared cache
    ensures match r { Some(e) => match e.contents { Ok(b) => b.of() == final(temp_file).id(), Err(x) => x is InternalError }, None => true },
        final(temp_file).id() == old(temp_file).id(), r is None && !self.shares(*request) ==> final(temp_file).blank() == old(temp_file).blank()
//@end
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::compute async stub=name,tempfile,write_cache_file,store_in_shared_cache,compute,load,and_then,shared_cache
//@sub? ByteView < 'static > ==> ByteView
//@sub? tokio :: fs :: File :: from_std ( ==> File :: vp_from_std (
//@sub? entry . and_then ( | byteview | request . load ( byteview ) ) ==> entry . vp_and_load ( & request )
//@sub? key , & temp_file ) ==> key , & mut temp_file )
//@ret r
//@spec
    ensures match r.contents { Err(e) => e is InternalError || exists|c: Result<ByteView, CacheError>| #[trigger] kept(*key, c) && r.contents == load_of(request, c),
        Ok(_) => exists|c: Result<ByteView, CacheError>| #[trigger] kept(*key, c) && r.contents == load_of(request, c) }
//@end
}
}
fn main() {}
