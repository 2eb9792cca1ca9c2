use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../anyhow.rs

// ---- the url crate (assumed): a URL is its base and the segments of its path -------------------------
pub struct UrlV { pub base: Str, pub segs: Seq<Str> }
pub uninterp spec fn url_text(u: UrlV) -> Str;
pub uninterp spec fn url_parse(s: Str) -> Option<UrlV>;
pub uninterp spec fn hierarchical(base: Str) -> bool;
#[verifier::external_body] pub struct Url { u: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct ParseError { e: u8 }
/// an ordinary path segment: the URL keeps it as it is, percent-encoded
pub open spec fn ordinary(s: Str) -> bool { s.len() > 0 && s != "."@ && s != ".."@ && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' && s[i] as u32 >= 32 && s[i] as u32 != 127 }
pub open spec fn ordinaries(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> ordinary(#[trigger] v[i]) }
/// segments are percent-encoded, slashes and percent signs included: the text tells them apart
pub proof fn ax_url_text(u: UrlV, v: UrlV) ensures u.base == v.base && ordinaries(u.segs) && ordinaries(v.segs) && url_text(u) == url_text(v) ==> u.segs == v.segs { admit(); }
pub uninterp spec fn root_of(scheme: Str, host: Str) -> Option<Str>;
/// `scheme://host/` has no path segments yet
pub proof fn ax_root(scheme: Str, host: Str) ensures url_parse(scheme + "://"@ + host + "/"@) == (match root_of(scheme, host) { Some(b) => Some(UrlV { base: b, segs: seq![] }), None => None }) { admit(); }
/// what extend keeps
pub uninterp spec fn kept(v: Seq<Str>) -> Seq<Str>;
pub proof fn ax_kept(v: Seq<Str>) ensures ordinaries(v) ==> kept(v) == v { admit(); }
pub trait Segs { spec fn sv(&self) -> Seq<Str>; }
impl<'a> Segs for VpSplit<'a> { open spec fn sv(&self) -> Seq<Str> { self.rest() } }
pub struct Segments { pub s: Ghost<Seq<Str>> }
impl Segs for Segments { open spec fn sv(&self) -> Seq<Str> { self.s@ } }
impl Url {
    pub uninterp spec fn view(&self) -> UrlV;
    #[verifier::external_body] pub fn parse(s: &String) -> (r: Result<Url, ParseError>) ensures r.is_ok() == url_parse(s@).is_some(), r.is_ok() ==> r->Ok_0.view() == url_parse(s@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == url_text(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn vp_clone(&self) -> (r: Url) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn vp_extend<S: Segs>(&mut self, s: S) ensures final(self).view() == (UrlV { base: old(self).view().base, segs: old(self).view().segs + kept(s.sv()) }) { unimplemented!() }
    /// Err if it cannot be a base; otherwise a last empty segment is replaced
    #[verifier::external_body] pub fn vp_join<S: Segs>(&mut self, s: S) -> (r: Result<(), VpErr>) ensures r.is_ok() ==> final(self).view() == (UrlV { base: old(self).view().base, segs: dir_of(old(self).view().segs) + kept(s.sv()) }) { unimplemented!() }
}
pub open spec fn dir_of(s: Seq<Str>) -> Seq<Str> { if s.len() > 0 && s.last() == Seq::<char>::empty() { s.drop_last() } else { s } }

// ---- locations ----------------------------------------------------------------------------------------
//@item crates/symbolicator-sources/src/remotefile.rs SourceLocation
pub uninterp spec fn s_trim_slash(s: Str) -> Str;
pub trait VpTrims { fn vp_trim_slashes(&self) -> &str; }
impl VpTrims for str { #[verifier::external_body] fn vp_trim_slashes(&self) -> (r: &str) ensures r@ == s_trim_slash(self@) { unimplemented!() } }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn key_of(prefix: Str, loc: Str) -> Str { let t = s_trim_slash(prefix); if t.len() == 0 { loc } else { t + "/"@ + loc } }
/// the non-empty segments of a location
pub open spec fn segs_of(loc: Str) -> Seq<Str> { split_c(loc, '/').filter(|s: Str| s.len() > 0) }
impl SourceLocation {
    #[verifier::external_body] pub fn segments(&self) -> (r: Segments) ensures r.s@ == segs_of(self.0@) { unimplemented!() }
//@fn crates/symbolicator-sources/src/remotefile.rs SourceLocation::prefix
//@sub? prefix . trim_matches ( & [ '/' ] [ .. ] ) ==> prefix . vp_trim_slashes ( )
//@sub? self . 0 . clone ( ) ==> vp_copy ( & self . 0 )
//@ret r
//@spec
    ensures r@ =~= key_of(prefix@, self.0@)
//@end
//@fn crates/symbolicator-sources/src/remotefile.rs SourceLocation::to_url stub=segments
//@sub? anyhow :: Result < Url > ==> Result < Url , VpErr >
//@sub? base . clone ( ) ==> base . vp_clone ( )
//@sub? joined . path_segments_mut ( ) . map_err ( | _ | anyhow :: Error :: msg ( "URL cannot-be-a-base" ) ) ? . pop_if_empty ( ) . extend ( self . segments ( ) ) ==> joined . vp_join ( self . segments ( ) ) ?
//@ret r
//@spec
    ensures r.is_ok() ==> r->Ok_0.view() == (UrlV { base: base.view().base, segs: dir_of(base.view().segs) + kept(segs_of(self.0@)) })
//@end
}
#[verifier::external_body] pub struct RemoteFileUri { u: u8 }
impl RemoteFileUri { pub uninterp spec fn view(&self) -> Str; }
pub trait VpText { spec fn tv(&self) -> Str; }
impl VpText for &str { open spec fn tv(&self) -> Str { self@ } }
impl VpText for String { open spec fn tv(&self) -> Str { self@ } }
#[verifier::external_body] pub fn vp_uri<T: VpText>(s: T) -> (r: RemoteFileUri) ensures r.view() == s.tv() { unimplemented!() }
pub open spec fn parts(scheme: Str, host: Str, path: Str) -> Str { match root_of(scheme, host) { Some(b) => url_text(UrlV { base: b, segs: kept(split_c(path, '/')) }), None => scheme + "://"@ + host + "/"@ + path } }
impl RemoteFileUri {
//@fn crates/symbolicator-sources/src/remotefile.rs RemoteFileUri::from_parts res=ok stub=new
//@sub? url . path_segments_mut ( ) . ok ( ) ? . extend ( ==> url . vp_extend (
//@sub? RemoteFileUri :: new ( ==> vp_uri (
//@sub? | mut url | ==> | url0 |
//@sub? { url . vp_extend ==> { let mut url = url0 ; url . vp_extend
//@ret r
//@spec
    ensures r.view() =~= parts(scheme@, host@, path@)
//@start
    proof { ax_root(scheme@, host@); }
//@end
}

// ---- the URIs of the kinds of sources -----------------------------------------------------------------
pub struct GcsConf { pub bucket: String, pub prefix: String }
pub struct S3Conf { pub bucket: String, pub prefix: String }
pub struct HttpConf { pub url: Url }
pub struct GcsRemoteFile { pub source: GcsConf, pub location: SourceLocation }
pub struct S3RemoteFile { pub source: S3Conf, pub location: SourceLocation }
pub struct HttpRemoteFile { pub source: HttpConf, pub location: SourceLocation }
pub struct SentryRemoteFile { pub file_id: String }
impl GcsRemoteFile {
//@fn crates/symbolicator-sources/src/sources/gcs.rs GcsRemoteFile::key
//@ret r
//@spec
    ensures r@ =~= key_of(self.source.prefix@, self.location.0@)
//@end
//@fn crates/symbolicator-sources/src/sources/gcs.rs GcsRemoteFile::uri
//@ret r
//@spec
    ensures r.view() =~= parts("gs"@, self.source.bucket@, key_of(self.source.prefix@, self.location.0@))
//@end
}
impl S3RemoteFile {
//@fn crates/symbolicator-sources/src/sources/s3.rs S3RemoteFile::key
//@ret r
//@spec
    ensures r@ =~= key_of(self.source.prefix@, self.location.0@)
//@end
//@fn crates/symbolicator-sources/src/sources/s3.rs S3RemoteFile::uri
//@ret r
//@spec
    ensures r.view() =~= parts("s3"@, self.source.bucket@, key_of(self.source.prefix@, self.location.0@))
//@end
}
impl HttpRemoteFile {
//@fn crates/symbolicator-sources/src/sources/http.rs HttpRemoteFile::url
//@sub? anyhow :: Result < Url > ==> Result < Url , VpErr >
//@ret r
//@spec
    ensures r.is_ok() ==> r->Ok_0.view() == (UrlV { base: self.source.url.view().base, segs: dir_of(self.source.url.view().segs) + kept(segs_of(self.location.0@)) })
//@end
//@fn crates/symbolicator-sources/src/sources/http.rs HttpRemoteFile::uri
//@sub? url . as_ref ( ) . into ( ) ==> vp_uri ( url . as_str ( ) )
//@sub? "" . into ( ) ==> vp_uri ( "" )
//@ret r
//@spec
    ensures r.view() == url_text(UrlV { base: self.source.url.view().base, segs: dir_of(self.source.url.view().segs) + kept(segs_of(self.location.0@)) }) || r.view() =~= ""@
//@end
}
impl SentryRemoteFile {
//@fn crates/symbolicator-sources/src/sources/sentry.rs SentryRemoteFile::uri
//@sub? format ! ( "sentry://project_debug_file/{}" , self . file_id ) . into ( ) ==> vp_uri ( format ! ( "sentry://project_debug_file/{}" , self . file_id ) )
//@ret r
//@spec
    ensures r.view() =~= "sentry://project_debug_file/"@ + self.file_id@
//@end
}

// ---- different locations, different URIs ----------------------------------------------------------------
proof fn lemma_split_inj(s: Str, t: Str, c: char) requires split_c(s, c) == split_c(t, c) ensures s == t decreases s.len()
{
    reveal_with_fuel(split_c, 2);
    lemma_split_nonempty(s, c); lemma_split_nonempty(t, c);
    if has_char(s, c) && has_char(t, c) {
        lemma_first(s, c); lemma_first(t, c);
        let (i, j) = (choose|i: int| is_first(s, c, i), choose|i: int| is_first(t, c, i));
        let (r, q) = (s.subrange(i + 1, s.len() as int), t.subrange(j + 1, t.len() as int));
        assert(split_c(s, c) =~= seq![s.subrange(0, i)] + split_c(r, c)); assert(split_c(t, c) =~= seq![t.subrange(0, j)] + split_c(q, c));
        assert(split_c(s, c).subrange(1, split_c(s, c).len() as int) =~= split_c(r, c)); assert(split_c(t, c).subrange(1, split_c(t, c).len() as int) =~= split_c(q, c));
        assert(split_c(s, c)[0] == s.subrange(0, i)); assert(split_c(t, c)[0] == t.subrange(0, j));
        lemma_split_inj(r, q, c);
        assert(s =~= s.subrange(0, i) + seq![c] + r); assert(t =~= t.subrange(0, j) + seq![c] + q);
    } else if has_char(s, c) { lemma_first(s, c); let i = choose|i: int| is_first(s, c, i); lemma_split_nonempty(s.subrange(i + 1, s.len() as int), c); assert(split_c(s, c).len() >= 2); assert(false); }
    else if has_char(t, c) { lemma_first(t, c); let i = choose|i: int| is_first(t, c, i); lemma_split_nonempty(t.subrange(i + 1, t.len() as int), c); assert(split_c(t, c).len() >= 2); assert(false); }
    else { assert(split_c(s, c)[0] == s); assert(split_c(t, c)[0] == t); }
}
pub proof fn theorem_bucket(scheme: Str, host: Str, prefix: Str, a: Str, b: Str)
    requires ordinaries(split_c(key_of(prefix, a), '/')), ordinaries(split_c(key_of(prefix, b), '/')), parts(scheme, host, key_of(prefix, a)) == parts(scheme, host, key_of(prefix, b))
    ensures a == b
{
    let (k, l) = (key_of(prefix, a), key_of(prefix, b));
    match root_of(scheme, host) {
        Some(r) => { ax_kept(split_c(k, '/')); ax_kept(split_c(l, '/')); ax_url_text(UrlV { base: r, segs: kept(split_c(k, '/')) }, UrlV { base: r, segs: kept(split_c(l, '/')) }); lemma_split_inj(k, l, '/'); }
        None => { lemma_after(scheme + "://"@ + host + "/"@, k, l); }
    }
    if s_trim_slash(prefix).len() > 0 { lemma_after(s_trim_slash(prefix) + "/"@, a, b); }
}
proof fn lemma_after(p: Str, x: Str, y: Str) requires p + x == p + y ensures x == y
{ assert(x =~= (p + x).subrange(p.len() as int, (p + x).len() as int)); assert(y =~= (p + y).subrange(p.len() as int, (p + y).len() as int)); }
}
fn main() {}
