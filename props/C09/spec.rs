use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

//@include ../cache_key.rs
// ---- the data the digest is taken of ----------------------------------------------------------------
/// a value on a line of its own
pub open spec fn line_of(s: Str) -> Str { if has_char(s, '\n') || has_prefix(s, seq!['"']) { dbg(s) } else { s } }
pub open spec fn scope_line(s: Scope) -> Str { match s { Scope::Global => "global"@, Scope::Scoped(n) => if n.view() =~= "global"@ { dbg(n.view()) } else { line_of(n.view()) } } }
pub open spec fn head_of(s: Scope) -> Str { "scope: "@ + scope_line(s) + "\n\n"@ }
pub open spec fn meta_of(id: Str, uri: Str) -> Str { "source: "@ + line_of(id) + "\nlocation: "@ + line_of(uri) + "\n"@ }
impl Scope {
    #[verifier::external_body] pub fn vp_clone(&self) -> (r: Scope) ensures r == *self { unimplemented!() }
//@fn crates/symbolicator-service/src/types.rs <AsRef for Scope>::as_ref as=as_ref
//@sub? Scope :: Scoped ( ref s ) => s ==> Scope :: Scoped ( ref s ) => s . vp_str ( )
//@ret r
//@spec
    ensures r@ == (match *self { Scope::Global => "global"@, Scope::Scoped(n) => n.view() })
//@end
}
proof fn lemma_sub1(s: Str, c: char) ensures has_substr(s, seq![c]) == has_char(s, c)
{ if has_char(s, c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.subrange(i, i + 1) =~= seq![c]); assert(contains_at(s, seq![c], i)); }
  if has_substr(s, seq![c]) { let i = choose|i: int| contains_at(s, seq![c], i); assert(s.subrange(i, i + 1)[0] == s[i]); assert(seq![c][0] == c); } }
//@fn crates/symbolicator-service/src/caching/cache_key.rs line_value
//@sub? Cow < '_ , str > ==> VpCow < '_ >
//@sub? Cow :: ==> VpCow ::
//@ret r
//@spec
    ensures r.view() =~= line_of(value@)
//@start
    proof { lemma_sub1(value@, '\n'); }
//@end
impl CacheKey {
//@fn crates/symbolicator-service/src/caching/cache_key.rs CacheKey::scoped_builder
//@sub? Cow :: ==> VpCow ::
//@sub? * * name == * Scope :: Global . as_ref ( ) ==> name . vp_is ( Scope :: Global . as_ref ( ) )
//@sub? scope . clone ( ) ==> scope . vp_clone ( )
//@ret r
//@spec
    ensures r.data@ =~= head_of(*scope), r.scope == *scope
//@before? let metadata
    proof { reveal_strlit("global"); ax::lemma_pfx1("global"@, '"'); }
    assert(scope_value.view() =~= scope_line(*scope));
//@end
//@fn crates/symbolicator-service/src/caching/cache_key.rs CacheKey::from_scoped_file
//@ret r
//@spec
    ensures r.scope == *scope, r.hash@ == sha256(head_of(*scope) + meta_of(file.s_id(), file.s_uri()))
//@before builder . build
    assert(builder.data@ =~= head_of(*scope) + meta_of(file.s_id(), file.s_uri()));
//@end
//@fn crates/symbolicator-service/src/caching/cache_key.rs <PartialEq for CacheKey>::eq as=vp_eq
//@sub? self . hash == other . hash ==> vp_same_bytes ( & self . hash , & other . hash )
//@ret r
//@spec
    ensures r == (self.hash@ == other.hash@)
//@end
}
#[verifier::external_body] pub fn vp_same_bytes(a: &[u8; 32], b: &[u8; 32]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl CacheKeyBuilder {
//@fn crates/symbolicator-service/src/caching/cache_key.rs CacheKeyBuilder::write_file_meta
//@sub? fmt :: Error ==> VpFmtError
//@ret r
//@spec
    ensures r.is_ok(), final(self).scope == old(self).scope, final(self).data@ =~= old(self).data@ + meta_of(file.s_id(), file.s_uri())
//@end
//@fn crates/symbolicator-service/src/caching/cache_key.rs CacheKeyBuilder::build
//@sub? self . data . into ( ) ==> ArcStr :: vp_from ( self . data )
//@sub? hash . into ( ) ==> hash
//@ret r
//@spec
    ensures r.scope == self.scope, r.data.view() == self.data@, r.hash@ == sha256(self.data@)
//@end
}

// ---- sources and locations --------------------------------------------------------------------------
#[verifier::external_body] pub struct SourceId { s: u8 }
impl SourceId { pub uninterp spec fn view(&self) -> Str; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() } }
pub struct RemoteFileUri { pub t: String }
impl RemoteFileUri { pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.t@ { vp_clone_s(&self.t) } }
#[verifier::external_body] pub fn vp_clone_s(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub struct Conf { pub id: SourceId }
pub struct FilesystemRemoteFile { pub source: Conf, pub u: RemoteFileUri }
pub struct GcsRemoteFile { pub source: Conf, pub u: RemoteFileUri }
pub struct HttpRemoteFile { pub source: Conf, pub u: RemoteFileUri }
pub struct S3RemoteFile { pub source: Conf, pub u: RemoteFileUri }
pub struct SentryRemoteFile { pub source: Conf, pub u: RemoteFileUri }
impl FilesystemRemoteFile { #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r.t@ == self.u.t@ { unimplemented!() } }
impl GcsRemoteFile { #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r.t@ == self.u.t@ { unimplemented!() } }
impl HttpRemoteFile { #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r.t@ == self.u.t@ { unimplemented!() } }
impl S3RemoteFile { #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r.t@ == self.u.t@ { unimplemented!() } }
impl SentryRemoteFile { #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r.t@ == self.u.t@ { unimplemented!() } }
//@item crates/symbolicator-sources/src/remotefile.rs RemoteFile
impl RemoteFile {
    pub open spec fn s_id(&self) -> Str { match self { RemoteFile::Filesystem(x) => x.source.id.view(), RemoteFile::Gcs(x) => x.source.id.view(), RemoteFile::Http(x) => x.source.id.view(), RemoteFile::S3(x) => x.source.id.view(), RemoteFile::Sentry(x) => x.source.id.view() } }
    pub open spec fn s_uri(&self) -> Str { match self { RemoteFile::Filesystem(x) => x.u.t@, RemoteFile::Gcs(x) => x.u.t@, RemoteFile::Http(x) => x.u.t@, RemoteFile::S3(x) => x.u.t@, RemoteFile::Sentry(x) => x.u.t@ } }
//@fn crates/symbolicator-sources/src/remotefile.rs RemoteFile::source_id
//@ret r
//@spec
    ensures r.view() == self.s_id()
//@end
//@fn crates/symbolicator-sources/src/remotefile.rs RemoteFile::uri stub=uri
//@ret r
//@spec
    ensures r.t@ == self.s_uri()
//@end
}

// ---- distinct identities, distinct data; distinct digests, distinct paths -----------------------------
proof fn lemma_line(s: Str) ensures !has_char(line_of(s), '\n') { ax_dbg(s); }
proof fn lemma_line_inj(s: Str, t: Str) ensures line_of(s) == line_of(t) ==> s == t
{
    ax_dbg(s); ax_dbg(t); ax_dbg_inj(s, t);
    if line_of(s) == line_of(t) {
        let q = |x: Str| has_char(x, '\n') || has_prefix(x, seq!['"']);
        if q(s) != q(t) { let (a, b) = if q(s) { (s, t) } else { (t, s) }; assert(dbg(a) == b); assert(b.subrange(0, 1) =~= seq!['"']); assert(false); }
    }
}
proof fn lemma_scope_inj(s: Scope, t: Scope) ensures scope_line(s) == scope_line(t) ==> (match (s, t) { (Scope::Global, Scope::Global) => true, (Scope::Scoped(a), Scope::Scoped(b)) => a.view() == b.view(), _ => false }), !has_char(scope_line(s), '\n')
{
    reveal_strlit("global");
    if let Scope::Scoped(a) = s { lemma_line(a.view()); ax_dbg(a.view());
        if let Scope::Scoped(b) = t { lemma_line_inj(a.view(), b.view()); ax_dbg(b.view()); ax_dbg_inj(a.view(), b.view());
            let (ga, gb) = (a.view() =~= "global"@, b.view() =~= "global"@);
            if scope_line(s) == scope_line(t) && ga != gb { let (x, y) = if ga { (a.view(), b.view()) } else { (b.view(), a.view()) };
                if has_char(y, '\n') || has_prefix(y, seq!['"']) { ax_dbg_inj(x, y); assert(x == y); } else { assert(y == dbg(x)); ax_dbg(x); assert(y.subrange(0, 1) =~= seq!['"']); }
                assert(false); }
        } else { if a.view() =~= "global"@ { assert(dbg(a.view())[0] == 'g' ==> false); } else if scope_line(s) == scope_line(t) { ax_dbg(a.view()); assert(a.view() == "global"@); assert(false); } }
    } else if let Scope::Scoped(b) = t { ax_dbg(b.view()); if scope_line(s) == scope_line(t) { assert("global"@[0] == 'g'); assert(false); } }
}
/// texts up to the first line break
proof fn lemma_cut(a: Str, x: Str, b: Str, y: Str)
    requires a + x == b + y, !has_char(a, '\n'), !has_char(b, '\n'), x.len() > 0, x[0] == '\n', y.len() > 0, y[0] == '\n'
    ensures a == b, x == y
{
    let (s, t) = (a + x, b + y);
    if a.len() < b.len() { assert(s[a.len() as int] == '\n'); assert(t[a.len() as int] == b[a.len() as int]); assert(false); }
    if b.len() < a.len() { assert(t[b.len() as int] == '\n'); assert(s[b.len() as int] == a[b.len() as int]); assert(false); }
    assert(a =~= s.subrange(0, a.len() as int)); assert(b =~= t.subrange(0, b.len() as int));
    assert(x =~= s.subrange(a.len() as int, s.len() as int)); assert(y =~= t.subrange(b.len() as int, t.len() as int));
}
proof fn lemma_after(p: Str, x: Str, y: Str) requires p + x == p + y ensures x == y
{ assert(x =~= (p + x).subrange(p.len() as int, (p + x).len() as int)); assert(y =~= (p + y).subrange(p.len() as int, (p + y).len() as int)); }
/// the data of two keys of files is equal only if scope, source and location are
pub proof fn theorem_data(s: Scope, i: Str, u: Str, s2: Scope, i2: Str, u2: Str)
    requires head_of(s) + meta_of(i, u) == head_of(s2) + meta_of(i2, u2)
    ensures scope_line(s) == scope_line(s2), i == i2, u == u2, (match (s, s2) { (Scope::Global, Scope::Global) => true, (Scope::Scoped(a), Scope::Scoped(b)) => a.view() == b.view(), _ => false })
{
    reveal_strlit("scope: "); reveal_strlit("\n\n"); reveal_strlit("source: "); reveal_strlit("\nlocation: "); reveal_strlit("\n");
    lemma_scope_inj(s, s2); lemma_scope_inj(s2, s); lemma_line(i); lemma_line(i2); lemma_line(u); lemma_line(u2);
    let (r1, r1b) = ("\n\n"@ + meta_of(i, u), "\n\n"@ + meta_of(i2, u2));
    let (a, b) = (scope_line(s), scope_line(s2));
    assert(head_of(s) + meta_of(i, u) =~= "scope: "@ + (a + r1)); assert(head_of(s2) + meta_of(i2, u2) =~= "scope: "@ + (b + r1b));
    lemma_after("scope: "@, a + r1, b + r1b);
    lemma_cut(a, r1, b, r1b);
    lemma_after("\n\n"@, meta_of(i, u), meta_of(i2, u2));
    let (r2, r2b) = ("\nlocation: "@ + line_of(u) + "\n"@, "\nlocation: "@ + line_of(u2) + "\n"@);
    assert(meta_of(i, u) =~= "source: "@ + (line_of(i) + r2)); assert(meta_of(i2, u2) =~= "source: "@ + (line_of(i2) + r2b));
    lemma_after("source: "@, line_of(i) + r2, line_of(i2) + r2b);
    lemma_cut(line_of(i), r2, line_of(i2), r2b);
    assert(r2 =~= "\nlocation: "@ + (line_of(u) + "\n"@)); assert(r2b =~= "\nlocation: "@ + (line_of(u2) + "\n"@));
    lemma_after("\nlocation: "@, line_of(u) + "\n"@, line_of(u2) + "\n"@);
    lemma_cut(line_of(u), "\n"@, line_of(u2), "\n"@);
    lemma_line_inj(i, i2); lemma_line_inj(u, u2);
}
proof fn lemma_h2(n: int, m: int) requires 0 <= n < 256, 0 <= m < 256 ensures lhex2(n).len() == 2, lhex2(n) == lhex2(m) ==> n == m
{ ax_lhex2(n); ax_lhex2(m); if lhex2(n) == lhex2(m) { assert(lhex2(n)[0] == lhex2(m)[0]); assert(lhex2(n)[1] == lhex2(m)[1]); } }
proof fn lemma_hexs(b: Seq<u8>, c: Seq<u8>) requires b.len() == c.len() ensures hexs(b).len() == 2 * b.len(), hexs(b) == hexs(c) ==> b == c decreases b.len()
{
    if b.len() > 0 {
        lemma_hexs(b.drop_last(), c.drop_last()); lemma_hexs(c.drop_last(), b.drop_last());
        lemma_h2(b.last() as int, c.last() as int); lemma_h2(c.last() as int, b.last() as int);
        if hexs(b) == hexs(c) {
            let n = hexs(b.drop_last()).len() as int;
            assert(hexs(b).subrange(0, n) =~= hexs(b.drop_last())); assert(hexs(c).subrange(0, n) =~= hexs(c.drop_last()));
            assert(hexs(b).subrange(n, n + 2) =~= lhex2(b.last() as int)); assert(hexs(c).subrange(n, n + 2) =~= lhex2(c.last() as int));
            assert(b =~= b.drop_last().push(b.last())); assert(c =~= c.drop_last().push(c.last()));
        }
    } else { assert(b =~= c); }
}
pub open spec fn is_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' }
proof fn lemma_hexd(n: int) requires 0 <= n < 16 ensures is_hex(hexd(n)) {}
proof fn lemma_hexs_chars(b: Seq<u8>) ensures forall|i: int| 0 <= i < hexs(b).len() ==> is_hex(#[trigger] hexs(b)[i]) decreases b.len()
{ if b.len() > 0 { lemma_hexs_chars(b.drop_last()); ax_lhex2(b.last() as int); lemma_hexd(b.last() as int / 16); lemma_hexd(b.last() as int % 16); let n = hexs(b.drop_last()).len() as int;
    assert forall|i: int| 0 <= i < hexs(b).len() implies is_hex(#[trigger] hexs(b)[i]) by { if i < n { assert(hexs(b)[i] == hexs(b.drop_last())[i]); } else { assert(hexs(b)[i] == lhex2(b.last() as int)[i - n]); } } } }
/// texts up to the first slash
proof fn lemma_cut_slash(a: Str, x: Str, b: Str, y: Str)
    requires a + "/"@ + x == b + "/"@ + y, !has_char(a, '/'), !has_char(b, '/')
    ensures a == b, x == y
{
    reveal_strlit("/");
    let (s, t) = (a + "/"@ + x, b + "/"@ + y);
    if a.len() < b.len() { assert(s[a.len() as int] == '/'); assert(t[a.len() as int] == b[a.len() as int]); assert(false); }
    if b.len() < a.len() { assert(t[b.len() as int] == '/'); assert(s[b.len() as int] == a[b.len() as int]); assert(false); }
    assert(a =~= s.subrange(0, a.len() as int)); assert(b =~= t.subrange(0, b.len() as int));
    assert(x =~= s.subrange(a.len() as int + 1, s.len() as int)); assert(y =~= t.subrange(b.len() as int + 1, t.len() as int));
}
pub open spec fn seg_ok(s: Str) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> s[i] == 'v' || is_hex(#[trigger] s[i]) }
pub open spec fn tail_of(f: CachePathFormat, h: Seq<u8>) -> Seq<Str> { match f { CachePathFormat::V1 => seq![lhex2(h[0] as int), hexs(h.subrange(1, 4)), hexs(h.subrange(4, 32))], CachePathFormat::V2 => seq![lhex2(h[0] as int), lhex2(h[1] as int), hexs(h.subrange(2, 32))] } }
/// a path is four ordinary segments of hexadecimal digits (the first one after a `v`)
pub proof fn theorem_shape(v: CacheVersion, h: Seq<u8>)
    requires h.len() == 32
    ensures ({ let t = tail_of(v.path_format, h); let d = "v"@ + dec(v.number as int); path_of(v, h) =~= d + "/"@ + t[0] + "/"@ + t[1] + "/"@ + t[2] && seg_ok(d) && seg_ok(t[0]) && seg_ok(t[1]) && seg_ok(t[2]) })
{
    reveal_strlit("v"); ax_dec(v.number as int);
    ax_lhex2(h[0] as int); ax_lhex2(h[1] as int); lemma_hexd(h[0] as int / 16); lemma_hexd(h[0] as int % 16); lemma_hexd(h[1] as int / 16); lemma_hexd(h[1] as int % 16);
    lemma_hexs_chars(h.subrange(1, 4)); lemma_hexs_chars(h.subrange(4, 32)); lemma_hexs_chars(h.subrange(2, 32));
    lemma_hexs(h.subrange(1, 4), h.subrange(1, 4)); lemma_hexs(h.subrange(4, 32), h.subrange(4, 32)); lemma_hexs(h.subrange(2, 32), h.subrange(2, 32));
}
/// different versions have different paths, and so have different digests in one version
pub proof fn theorem_paths(v: CacheVersion, h: Seq<u8>, w: CacheVersion, k: Seq<u8>)
    requires h.len() == 32, k.len() == 32, path_of(v, h) == path_of(w, k)
    ensures v.number == w.number, v.path_format == w.path_format ==> h == k
{
    reveal_strlit("v"); reveal_strlit("/");
    theorem_shape(v, h); theorem_shape(w, k);
    let (t, u) = (tail_of(v.path_format, h), tail_of(w.path_format, k));
    let (d, e) = ("v"@ + dec(v.number as int), "v"@ + dec(w.number as int));
    let (x, y) = (t[0] + "/"@ + (t[1] + "/"@ + t[2]), u[0] + "/"@ + (u[1] + "/"@ + u[2]));
    assert(path_of(v, h) =~= d + "/"@ + x); assert(path_of(w, k) =~= e + "/"@ + y);
    lemma_cut_slash(d, x, e, y);
    lemma_after("v"@, dec(v.number as int), dec(w.number as int)); ax_dec_inj(v.number as int, w.number as int);
    lemma_cut_slash(t[0], t[1] + "/"@ + t[2], u[0], u[1] + "/"@ + u[2]);
    lemma_cut_slash(t[1], t[2], u[1], u[2]);
    if v.path_format == w.path_format {
        lemma_h2(h[0] as int, k[0] as int); lemma_h2(h[1] as int, k[1] as int);
        lemma_hexs(h.subrange(1, 4), k.subrange(1, 4)); lemma_hexs(h.subrange(4, 32), k.subrange(4, 32)); lemma_hexs(h.subrange(2, 32), k.subrange(2, 32));
        assert forall|i: int| 0 <= i < 32 implies h[i] == k[i] by {
            if v.path_format is V1 { if i >= 4 { assert(h[i] == h.subrange(4, 32)[i - 4]); assert(k[i] == k.subrange(4, 32)[i - 4]); } else if i >= 1 { assert(h[i] == h.subrange(1, 4)[i - 1]); assert(k[i] == k.subrange(1, 4)[i - 1]); } }
            else if i >= 2 { assert(h[i] == h.subrange(2, 32)[i - 2]); assert(k[i] == k.subrange(2, 32)[i - 2]); }
        }
        assert(h =~= k);
    }
}
}
fn main() {}
