use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../js_urls.rs

// ---- addresses -----------------------------------------------------------------------------------------
/// the text before the first occurrence
pub open spec fn before_c(s: Str, c: char) -> Str { split_c(s, c)[0] }
pub open spec fn if_some(x: Option<Str>) -> Seq<Str> { match x { Some(s) => seq![s], None => Seq::empty() } }
pub open spec fn no_query(s: Str) -> Option<Str> { match cut_c(s, '?') { Some((a, _)) => Some(a), None => None } }
pub open spec fn tilde(s: Str) -> Str { "~"@ + s }
/// the address without its fragment, without its query, and the same without the origin
pub open spec fn candidates(url: Str) -> Seq<Str> {
    let u = before_c(url, '#'); let r = no_origin(u);
    seq![u] + if_some(no_query(u)) + seq![tilde(r)] + if_some(match no_query(r) { Some(q) => Some(tilde(q)), None => None })
}
pub open spec fn oview(v: Seq<String>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k]@) }
pub open spec fn so(x: Option<String>) -> Option<Str> { match x { Some(s) => Some(s@), None => None } }
/// what is there of four, in order
#[verifier::external_body]
pub fn vp_flat4(v: [Option<String>; 4]) -> (r: Vec<String>) ensures oview(r@) =~= if_some(so(v@[0])) + if_some(so(v@[1])) + if_some(so(v@[2])) + if_some(so(v@[3])) { unimplemented!() }
//@fn crates/symbolicator-js/src/utils.rs get_release_file_candidate_urls nocomb
//@sub? split_once ( '?' ) ==> vp_cut ( '?' )
//@sub? urls . into_iter ( ) . flatten ( ) ==> vp_flat4 ( urls )
//@ret r
//@spec
    ensures oview(r@) == candidates(url@)
//@start
    proof { lemma_split_nonempty(url@, '#'); }
//@end

pub open spec fn http(scheme: Str) -> bool { scheme == "http"@ || scheme == "https"@ }
/// the folders of the base
pub open spec fn dirs(scheme: Str, v: Seq<Str>) -> Seq<Str> { let w = if scheme != "file"@ || v[0].len() == 0 { v.skip(1) } else { v }; if w.len() > 0 { w.drop_last() } else { w } }
/// one component of the path further; whether nothing has been added yet
pub open spec fn walked(d: Seq<Str>, first: bool, p: Str, h: bool) -> (Seq<Str>, bool) {
    if p == ".."@ && (d.len() > 0 || h) { (if d.len() > 0 { d.drop_last() } else { d }, first) } else if p == "."@ && (h || first) { (d, first) } else { (d.push(p), false) }
}
pub open spec fn walk(d: Seq<Str>, v: Seq<Str>, h: bool, n: int) -> (Seq<Str>, bool)
    decreases n
{ if n <= 0 { (d, true) } else { let (s, first) = walk(d, v, h, n - 1); walked(s, first, v[n - 1], h) } }
/// the components that are not empty, each after a slash
pub open spec fn slashed(v: Seq<Str>, n: int) -> Str
    decreases n
{ if n <= 0 { Seq::empty() } else { slashed(v, n - 1) + (if v[n - 1].len() > 0 { "/"@ + v[n - 1] } else { Seq::empty() }) } }
pub open spec fn slashed_all(v: Seq<Str>) -> Str { slashed(v, v.len() as int) }
/// scheme and host
pub open spec fn head(scheme: Str, v: Seq<Str>) -> Str { if scheme == "file"@ { Seq::empty() } else { scheme + "://"@ + v[0] } }
pub open spec fn no_tilde(s: Str) -> Str { if has_prefix(s, seq!['~']) { drop_prefix(s, seq!['~']) } else { s } }
/// the path of an address ends at its query or fragment
pub open spec fn is_first2(s: Str, a: char, b: char, i: int) -> bool { 0 <= i < s.len() && (s[i] == a || s[i] == b) && forall|j: int| 0 <= j < i ==> s[j] != a && s[j] != b }
pub open spec fn upto2(s: Str, a: char, b: char) -> Str { if exists|i: int| is_first2(s, a, b, i) { s.take(choose|i: int| is_first2(s, a, b, i)) } else { s } }
/// scheme, host and folders of the base
pub open spec fn base_of(base: Str) -> (Str, Seq<Str>) {
    let (scheme, rest) = match cut(base, "://"@) { Some(p) => p, None => ("file"@, base) };
    (scheme, split_c(if http(scheme) { upto2(rest, '?', '#') } else { rest }, '/'))
}
/// the address a reference in a file stands for
pub open spec fn resolved(base: Str, right: Str) -> Str {
    if has_substr(right, "://"@) || has_prefix(right, "webpack:"@) { right } else {
        let (scheme, v) = base_of(base); let r = no_tilde(right); let f = scheme == "file"@;
        if has_prefix(r, seq!['/']) { if f { r } else if has_prefix(r, "//"@) { scheme + "://"@ + drop_prefix(r, "//"@) } else { scheme + "://"@ + v[0] + r } }
        else { let w = split_c(r, '/'); head(scheme, v) + slashed_all(walk(dirs(scheme, v), w, http(scheme), w.len() as int).0) }
    }
}
pub proof fn lemma_base(base: Str) ensures base_of(base).1.len() > 0 { let (scheme, rest) = match cut(base, "://"@) { Some(p) => p, None => ("file"@, base) }; lemma_split_nonempty(if http(scheme) { upto2(rest, '?', '#') } else { rest }, '/'); }
pub struct VpPeek<'a> { x: &'a str }
impl<'a> VpPeek<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Str>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>) ensures (if old(self).rest().len() > 0 { r is Some && r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) } else { r is None && final(self).rest() == old(self).rest() }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_next_back(&mut self) -> (r: Option<&'a str>) ensures (if old(self).rest().len() > 0 { r is Some && r->Some_0@ == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last() } else { r is None && final(self).rest() == old(self).rest() }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_next_is_empty(&mut self) -> (r: bool) ensures final(self).rest() == old(self).rest(), r == (old(self).rest().len() > 0 && old(self).rest()[0].len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vp_rest(self) -> (r: Vec<&'a str>) ensures rview(r@) == self.rest() { unimplemented!() }
}
pub trait VpPeeks { fn vp_split_any(&self, a: char, b: char) -> VpSplit<'_>; fn vp_split_peek(&self, c: char) -> VpPeek<'_>; fn vp_split_all(&self, c: char) -> Vec<&str>; }
impl VpPeeks for str {
    #[verifier::external_body] fn vp_split_any(&self, a: char, b: char) -> (r: VpSplit<'_>) ensures r.rest().len() > 0, r.rest()[0] == upto2(self@, a, b) { unimplemented!() }
    #[verifier::external_body] fn vp_split_peek(&self, c: char) -> (r: VpPeek<'_>) ensures r.rest() == split_c(self@, c) { unimplemented!() }
    #[verifier::external_body] fn vp_split_all(&self, c: char) -> (r: Vec<&str>) ensures rview(r@) == split_c(self@, c), r@.len() == split_c(self@, c).len() { unimplemented!() }
}
/// a string slice that is empty if there is none
pub fn vp_or_empty(x: Option<&str>) -> (r: &str) ensures r@ == (match x { Some(s) => s@, None => Seq::empty() }) { match x { Some(s) => s, None => { proof { reveal_strlit(""); } "" } } }
pub proof fn lemma_rv(v: Seq<&str>) ensures forall|s: &str| #[trigger] rview(v.push(s)) =~= rview(v).push(s@), v.len() > 0 ==> rview(v.drop_last()) =~= rview(v).drop_last() {}
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/utils.rs join_paths nloops=2 while=0
//@sub? split_once ( "://" ) ==> vp_split_str ( "://" )
//@sub? rest . split ( [ '?' , '#' ] ) ==> rest . vp_split_any ( '?' , '#' )
//@sub? rest . split ( '/' ) . peekable ( ) ==> rest . vp_split_peek ( '/' )
//@sub? left_iter . next ( ) . unwrap_or_default ( ) ==> vp_or_empty ( left_iter . next ( ) )
//@sub? left_iter . peek ( ) == Some ( & "" ) ==> left_iter . vp_next_is_empty ( )
//@sub? left_iter . collect ( ) ==> left_iter . vp_rest ( )
//@sub? right . split ( '/' ) ==> right . vp_split_all ( '/' )
//@sub? right . into ( ) ==> right . vp_to_string ( )
//@ret r
//@spec
    ensures r@ == resolved(base@, right@)
//@start
    proof { lemma_base(base@); }
//@loop 0
    invariant vp_i0 <= vp_v0@.len(), rview(vp_v0@) == split_c(right@, '/'), is_http == http(scheme@),
        (rview(segments@), is_first_segment) == walk(dirs(scheme@, split_c(rest@, '/')), split_c(right@, '/'), is_http, vp_i0 as int),
        final_path@ == head(scheme@, split_c(rest@, '/')),
    decreases vp_v0@.len() - vp_i0,
//@body 0
    proof { lemma_rv(segments@); reveal_strlit(".."); reveal_strlit("."); assert(vp_v0@[vp_i0 as int]@ == rview(vp_v0@)[vp_i0 as int]); assert(rview(segments@).len() == segments@.len()); }
//@loop 1 iter=it
    invariant rview(it.seq()) == walk(dirs(scheme@, split_c(rest@, '/')), split_c(right@, '/'), is_http, split_c(right@, '/').len() as int).0,
        final_path@ == head(scheme@, split_c(rest@, '/')) + slashed(rview(it.seq()), it.index@),
//@body 1
    proof { reveal_strlit("/"); assert(seg@ == rview(it.seq())[it.index@]); }
//@finish
    proof { lemma_split_nonempty(right@, '/'); }
//@end

// ---- the path of a file without its suffixes -------------------------------------------------------------
pub open spec fn ends(s: Str, p: Str) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
/// str::trim_end_matches of a text
pub open spec fn stripped(s: Str, p: Str) -> Str
    decreases s.len()
{ if p.len() > 0 && ends(s, p) { stripped(s.take(s.len() - p.len()), p) } else { s } }
/// a dot and what has none
pub open spec fn suffix(p: Str) -> bool { p.len() > 0 && p[0] == '.' && forall|j: int| 0 < j < p.len() ==> p[j] != '.' }
pub open spec fn suffixes(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> suffix(#[trigger] v[i]) }
/// ends in one of them
pub open spec fn ends_one(s: Str, v: Seq<Str>) -> bool { exists|i: int| 0 <= i < v.len() && ends(s, #[trigger] v[i]) }
pub open spec fn one_of(s: Str, v: Seq<Str>) -> Str { v[choose|i: int| 0 <= i < v.len() && ends(s, #[trigger] v[i])] }
/// without suffixes, as often as they occur
pub open spec fn bare(s: Str, v: Seq<Str>) -> Str
    decreases s.len()
{ if suffixes(v) && ends_one(s, v) { let p = one_of(s, v); if p.len() > 0 { bare(s.take(s.len() - p.len()), v) } else { s } } else { s } }
/// only one of the suffixes fits
pub proof fn lemma_one(s: Str, p: Str, q: Str) requires suffix(p), suffix(q), ends(s, p), ends(s, q) ensures p == q {
    let a = s.len() - p.len(); let b = s.len() - q.len();
    assert(s.skip(a)[0] == s[a]); assert(s.skip(b)[0] == s[b]);
    if a < b { assert(s.skip(a)[b - a] == s[b]); } else if b < a { assert(s.skip(b)[a - b] == s[a]); }
}
pub proof fn lemma_bare(s: Str, v: Seq<Str>, i: int)
    requires suffixes(v), 0 <= i < v.len()
    ensures bare(stripped(s, v[i]), v) == bare(s, v), !ends(stripped(s, v[i]), v[i]), stripped(s, v[i]).len() <= s.len(), stripped(s, v[i]).len() == s.len() ==> stripped(s, v[i]) == s
    decreases s.len()
{
    let p = v[i]; assert(suffix(p));
    if ends(s, p) { assert(ends_one(s, v)); let q = one_of(s, v); assert(ends(s, q) && suffix(q)); lemma_one(s, p, q); lemma_bare(s.take(s.len() - p.len()), v, i); }
}
pub open spec fn pats(v: Seq<&str>) -> Seq<Str> { rview(v) }
#[verifier::external_body]
pub fn vp_trim_end<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == stripped(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_text_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/utils.rs trim_all_end_matches nloops=2
//@sub? trimmed . trim_end_matches ( pattern ) ==> vp_trim_end ( trimmed , pattern )
//@ret r
//@spec
    requires suffixes(rview(patterns@))
    ensures r@ == bare(input@, rview(patterns@))
//@start
    let ghost vp_in = input@; proof { }
//@loop 0
    invariant suffixes(rview(patterns@)), bare(input@, rview(patterns@)) == bare(vp_in, rview(patterns@)),
    decreases input@.len(),
//@loop 1 iter=it
    invariant suffixes(rview(patterns@)), it.seq().len() == patterns@.len(), forall|k: int| 0 <= k < patterns@.len() ==> *(#[trigger] it.seq()[k]) == patterns@[k],
        bare(trimmed@, rview(patterns@)) == bare(input@, rview(patterns@)), trimmed@.len() <= input@.len(),
        trimmed@.len() == input@.len() ==> trimmed@ == input@ && forall|k: int| 0 <= k < it.index@ ==> !ends(input@, #[trigger] rview(patterns@)[k]),
//@body 1
    proof { lemma_bare(trimmed@, rview(patterns@), it.index@); assert(rview(patterns@)[it.index@] == patterns@[it.index@]@); }
//@end
/// the suffixes of files with code
pub open spec fn file_suffixes() -> Seq<Str> { seq![".min"@, ".js"@, ".map"@, ".cjs"@, ".mjs"@, ".ts"@, ".d"@, ".jsx"@, ".tsx"@] }
pub proof fn lits() { reveal_strlit(".min"); reveal_strlit(".js"); reveal_strlit(".map"); reveal_strlit(".cjs"); reveal_strlit(".mjs"); reveal_strlit(".ts"); reveal_strlit(".d"); reveal_strlit(".jsx"); reveal_strlit(".tsx"); }
/// the same texts, in whatever order
pub open spec fn same(v: Seq<Str>, w: Seq<Str>) -> bool { (forall|i: int| 0 <= i < v.len() ==> #[trigger] w.contains(v[i])) && forall|i: int| 0 <= i < w.len() ==> #[trigger] v.contains(w[i]) }
pub proof fn lemma_suffixes() ensures suffixes(file_suffixes()) { reveal_strlit(".min"); reveal_strlit(".js"); reveal_strlit(".map"); reveal_strlit(".cjs"); reveal_strlit(".mjs"); reveal_strlit(".ts"); reveal_strlit(".d"); reveal_strlit(".jsx"); reveal_strlit(".tsx"); }
pub proof fn lemma_same(s: Str, v: Seq<Str>, w: Seq<Str>)
    requires suffixes(w), same(v, w)
    ensures bare(s, v) == bare(s, w), suffixes(v)
    decreases s.len()
{
    assert forall|i: int| 0 <= i < v.len() implies suffix(#[trigger] v[i]) by { let j = choose|j: int| 0 <= j < w.len() && w[j] == v[i]; assert(w.contains(v[i])); assert(suffix(w[j])); }
    if ends_one(s, v) { let p = one_of(s, v); let i = choose|i: int| 0 <= i < v.len() && ends(s, #[trigger] v[i]); assert(w.contains(v[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == v[i]; assert(ends(s, w[j])); }
    if ends_one(s, w) { let j = choose|j: int| 0 <= j < w.len() && ends(s, #[trigger] w[j]); assert(v.contains(w[j])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[j]; assert(ends(s, v[i])); }
    if ends_one(s, v) && ends_one(s, w) { lemma_one(s, one_of(s, v), one_of(s, w)); lemma_same(s.take(s.len() - one_of(s, v).len()), v, w); }
}
//@tables crates/symbolicator-js/src/utils.rs &[&str] ensures same(rview(r@), file_suffixes()) hint lits(); let t = file_suffixes(); let v = rview(r@); assert(t[0] == ".min"@ && t[1] == ".js"@ && t[2] == ".map"@ && t[3] == ".cjs"@ && t[4] == ".mjs"@ && t[5] == ".ts"@ && t[6] == ".d"@ && t[7] == ".jsx"@ && t[8] == ".tsx"@); assert(v.len() == r@.len()); assert forall|i: int| 0 <= i < v.len() implies #[trigger] t.contains(v[i]) by { assert(v[i] == r@[i]@); } assert(v[0] == r@[0]@ && v[1] == r@[1]@ && v[2] == r@[2]@ && v[3] == r@[3]@ && v[4] == r@[4]@ && v[5] == r@[5]@ && v[6] == r@[6]@ && v[7] == r@[7]@ && v[8] == r@[8]@); assert forall|i: int| 0 <= i < t.len() implies #[trigger] v.contains(t[i]) by { }
/// the path of an address without origin, query, fragment and suffixes
pub open spec fn stem(path: Str, v: Seq<Str>) -> Str {
    let p = upto2(no_origin(path), '?', '#');
    if has_char(p, '/') { let i = choose|i: int| is_last(p, '/', i); p.take(i) + "/"@ + bare(p.skip(i + 1), v) } else { p }
}
/// trim_all_end_matches for the suffixes of files
pub fn vp_trim_all<'a>(input: &'a str, patterns: &[&str]) -> (r: &'a str) requires same(rview(patterns@), file_suffixes()) ensures r@ == bare(input@, file_suffixes())
{ proof { lemma_suffixes(); lemma_same(input@, rview(patterns@), file_suffixes()); } trim_all_end_matches(input, patterns) }
pub proof fn lemma_stem(p: Str) ensures forall|i: int| #[trigger] is_last(p, '/', i) && has_char(p, '/') ==> i == choose|i: int| is_last(p, '/', i),
    forall|a: Str, b: Str| p =~= #[trigger] (a + seq!['/'] + b) ==> a == p.take(a.len() as int) && b == p.skip(a.len() as int + 1) {
    assert forall|a: Str, b: Str| p =~= #[trigger] (a + seq!['/'] + b) implies a == p.take(a.len() as int) && b == p.skip(a.len() as int + 1) by { assert(a =~= p.take(a.len() as int)); assert(b =~= p.skip(a.len() as int + 1)); }
    if has_char(p, '/') { lemma_last(p, '/'); let k = choose|i: int| is_last(p, '/', i); assert forall|i: int| #[trigger] is_last(p, '/', i) implies i == k by { if i < k {} else if k < i {} } }
}
//@fn crates/symbolicator-js/src/utils.rs extract_file_stem
//@sub? path . split ( [ '?' , '#' ] ) ==> path . vp_split_any ( '?' , '#' )
//@sub? FILE_SUFFIX_PATTERNS ==> FILE_SUFFIX_PATTERNS ( ) . as_slice ( )
//@sub? path . to_owned ( ) ==> path . vp_to_string ( )
//@sub? trim_all_end_matches ( name , ==> vp_trim_all ( name ,
//@ret r
//@spec
    ensures r@ == stem(path@, file_suffixes())
//@start
    proof { lemma_stem(upto2(no_origin(path@), '?', '#')); }
//@end

// ---- source maps ------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct ByteViewString { s: String }
impl ByteViewString { pub uninterp spec fn view(&self) -> Str; #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.view() == self.view() { unimplemented!() } #[verifier::external_body] pub fn from(s: String) -> (r: Self) ensures r.view() == s@ { unimplemented!() } }
#[verifier::external_body] pub struct Dur { s: u8 }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError derive=
//@isub Timeout(Duration) ==> Timeout(Dur)
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DebugId { s: u8 }
//@item crates/symbolicator-js/src/lookup.rs SourceMapUrl derive=
pub enum Link { Data(Str), Remote(Str) }
pub open spec fn link(u: SourceMapUrl) -> Link { match u { SourceMapUrl::Data(d) => Link::Data(d.view()), SourceMapUrl::Remote(u) => Link::Remote(u@) } }
pub open spec fn olink(u: Option<SourceMapUrl>) -> Option<Link> { match u { Some(u) => Some(link(u)), None => None } }
/// data_url: the text in a `data:` address
#[verifier::external_body] pub struct DataUrl { s: String }
pub uninterp spec fn data_of(s: Str) -> Option<DataUrl>;
impl DataUrl { pub uninterp spec fn bytes(&self) -> Option<Seq<u8>>; #[verifier::external_body] pub fn decode_to_vec(&self) -> (r: Result<(Vec<u8>, u8), u8>) ensures match r { Ok(v) => self.bytes() == Some(v.0@), Err(_) => self.bytes() is None } { unimplemented!() } }
#[verifier::external_body] pub fn vp_data_url(s: &str) -> (r: Result<DataUrl, u8>) ensures match r { Ok(u) => data_of(s@) == Some(u), Err(_) => data_of(s@) is None } { unimplemented!() }
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Str>;
#[verifier::external_body] pub fn vp_from_utf8(b: Vec<u8>) -> (r: Result<String, u8>) ensures match r { Ok(s) => utf8(b@) == Some(s@), Err(_) => utf8(b@) is None } { unimplemented!() }
pub open spec fn embedded(s: Str) -> Option<Str> { match data_of(s) { Some(u) => match u.bytes() { Some(b) => utf8(b), None => None }, None => None } }
/// what a reference in a file at `base` stands for
pub open spec fn reference(base: Str, s: Str) -> Option<Link> { if has_prefix(s, "data:"@) { match embedded(s) { Some(t) => Some(Link::Data(t)), None => None } } else { Some(Link::Remote(resolved(base, s))) } }
impl SourceMapUrl {
//@fn crates/symbolicator-js/src/lookup.rs SourceMapUrl::parse_with_prefix res=and_then
//@sub? data_url :: DataUrl :: process ( ==> vp_data_url (
//@sub? String :: from_utf8 ( ==> vp_from_utf8 (
//@sub? decoded . into ( ) ==> ByteViewString :: from ( decoded )
//@sub? String :: from ( ==> vp_string_from (
//@ret r
//@spec
    ensures match r { Ok(u) => reference(base@, url_string@) == Some(link(u)), Err(_) => reference(base@, url_string@) is None }
//@end
}
#[verifier::external_body] pub fn vp_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub struct ArtifactHeaders { s: String }
impl ArtifactHeaders {
    pub uninterp spec fn at(&self, k: Str) -> Option<Str>; pub uninterp spec fn none(&self) -> bool;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(v) => self.at(k@) == Some(v@), None => self.at(k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
}
/// symbolic: the reference in the text of a file
pub uninterp spec fn found_in(text: Str) -> Option<Str>;
#[verifier::external_body] pub fn discover_sourcemaps_location(s: &str) -> (r: Option<&str>) ensures match r { Some(v) => found_in(s@) == Some(v@), None => found_in(s@) is None } { unimplemented!() }
/// header first, then the older header, then the text
pub open spec fn map_of(abs: Str, h: ArtifactHeaders, text: Str) -> Option<Link> {
    match h.at("sourcemap"@) { Some(x) => reference(abs, x), None => match h.at("x-sourcemap"@) { Some(x) => reference(abs, x), None => match found_in(text) { Some(x) => reference(abs, x), None => None } } }
}
//@fn crates/symbolicator-js/src/utils.rs resolve_sourcemap_url res=ok
//@ret r
//@spec
    ensures olink(r) == map_of(abs_path@, *artifact_headers, artifact_source@)
//@end

// ---- keys of files -----------------------------------------------------------------------------------------
#[derive(Clone, Copy)] pub enum SourceFileType { Source, MinifiedSource, SourceMap, IndexedRamBundle }
//@item crates/symbolicator-js/src/lookup.rs FileKey derive=
pub enum Key { Min(Str, Option<DebugId>), Map(Option<Str>, Option<DebugId>), Src(Str) }
pub open spec fn kv(k: FileKey) -> Key { match k { FileKey::MinifiedSource { abs_path, debug_id } => Key::Min(abs_path@, debug_id), FileKey::SourceMap { abs_path, debug_id } => Key::Map(so(abs_path), debug_id), FileKey::Source { abs_path } => Key::Src(abs_path@) } }
pub open spec fn key_path(k: Key) -> Option<Str> { match k { Key::Min(p, _) => Some(p), Key::Map(p, _) => p, Key::Src(p) => Some(p) } }
pub open spec fn key_id(k: Key) -> Option<DebugId> { match k { Key::Min(_, d) => d, Key::Map(_, d) => d, Key::Src(_) => None } }
pub open spec fn key_type(k: Key) -> SourceFileType { match k { Key::Min(_, _) => SourceFileType::MinifiedSource, Key::Map(_, _) => SourceFileType::SourceMap, Key::Src(_) => SourceFileType::Source } }
pub open spec fn sv(x: Option<&str>) -> Option<Str> { match x { Some(s) => Some(s@), None => None } }
pub fn vp_deref(x: &Option<String>) -> (r: Option<&str>) ensures sv(r) == so(*x) { match x { Some(s) => Some(s.as_str()), None => None } }
impl FileKey {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@fn crates/symbolicator-js/src/lookup.rs FileKey::new_source
//@ret r
//@spec
    ensures kv(r) == Key::Src(abs_path@)
//@end
//@fn crates/symbolicator-js/src/lookup.rs FileKey::debug_id
//@ret r
//@spec
    ensures r == key_id(kv(*self))
//@end
//@fn crates/symbolicator-js/src/lookup.rs FileKey::abs_path noslice
//@sub? & abs_path [ .. ] ==> abs_path . as_str ( )
//@sub? abs_path . as_deref ( ) ==> vp_deref ( abs_path )
//@ret r
//@spec
    ensures sv(r) == key_path(kv(*self))
//@end
//@fn crates/symbolicator-js/src/lookup.rs FileKey::as_type
//@ret r
//@spec
    ensures r == key_type(kv(*self))
//@end
}

// ---- files and where they come from ---------------------------------------------------------------------------
#[verifier::external_body] pub struct RemoteFileUri { s: String }
impl RemoteFileUri { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn new(s: &str) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct RemoteFile { s: String }
impl RemoteFile { pub uninterp spec fn at(&self) -> RemoteFileUri; #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r == self.at() { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item crates/symbolicator-js/src/interface.rs ResolvedWith derive=Clone, Copy
//@item crates/symbolicator-js/src/lookup.rs CachedFileUri derive=
//@item crates/symbolicator-js/src/lookup.rs CachedFile derive=
//@isub Arc<SourceMapUrl> ==> SourceMapUrl
//@item crates/symbolicator-js/src/lookup.rs CachedFileEntry derive=
#[verifier::external_body] pub struct OwnedSourceMapCache { s: String }
impl<T> CachedFileEntry<T> { #[verifier::external_body] pub fn empty() -> (r: Self) ensures r.entry is Err { unimplemented!() } }
/// the source map the file refers to
pub open spec fn file_link(e: CachedFileEntry) -> Option<Link> { match e.entry { Ok(f) => olink(f.sourcemap_url), Err(_) => None } }
pub open spec fn file_id(e: CachedFileEntry) -> Option<DebugId> { match e.entry { Ok(f) => f.debug_id, Err(_) => None } }
//@item crates/symbolicator-js/src/lookup.rs SourceMapModule derive=
impl SourceMapModule {
//@fn crates/symbolicator-js/src/lookup.rs SourceMapModule::new stub=empty
//@sub? abs_path . to_owned ( ) ==> abs_path . vp_to_string ( )
//@ret r
//@spec
    ensures r.abs_path@ == abs_path@, r.debug_id == debug_id, !r.was_fetched
//@end
//@fn crates/symbolicator-js/src/lookup.rs SourceMapModule::source_file_key
//@ret r
//@spec
    ensures match self.source_file_base { Some(b) => r is Some && kv(r->Some_0) == Key::Src(resolved(b@, file_path@)), None => r is None }
//@end
//@fn crates/symbolicator-js/src/lookup.rs SourceMapModule::source_file_base
//@sub? self . source_file_base . as_deref ( ) ==> vp_deref ( & self . source_file_base )
//@ret r
//@spec
    ensures sv(r) == so(self.source_file_base)
//@end
}
#[verifier::external_body] pub struct Session { s: String }
#[verifier::external_body] pub struct SourceFileDescriptor { s: String }
#[verifier::external_body] pub struct ArtifactBundle { s: String }
impl ArtifactBundle { pub uninterp spec fn holds(&self) -> Session; #[verifier::external_body] pub fn get(&self) -> (r: &Session) ensures *r == self.holds() { unimplemented!() } }
impl Session {
    pub uninterp spec fn by_id(&self, d: DebugId, t: SourceFileType) -> Option<SourceFileDescriptor>;
    pub uninterp spec fn by_url(&self, u: Str) -> Option<SourceFileDescriptor>;
    #[verifier::external_body] pub fn source_by_debug_id(&self, d: DebugId, t: SourceFileType) -> (r: Result<Option<SourceFileDescriptor>, u8>) ensures self.by_id(d, t) == (match r { Ok(x) => x, Err(_) => None }) { unimplemented!() }
    #[verifier::external_body] pub fn source_by_url(&self, u: &str) -> (r: Result<Option<SourceFileDescriptor>, u8>) ensures self.by_url(u@) == (match r { Ok(x) => x, Err(_) => None }) { unimplemented!() }
}
//@item crates/symbolicator-js/src/lookup.rs IndividualArtifact derive=
pub struct Scope {}
#[verifier::external_body] pub struct SourceFilesCache { s: String }
#[verifier::external_body] pub struct Fetched { s: String }
/// what was downloaded from there
pub uninterp spec fn loaded(f: RemoteFile, r: Result<ByteViewString, CacheError>) -> bool;
impl Fetched { pub uninterp spec fn of(&self) -> RemoteFile; #[verifier::external_body] pub fn into_contents(self) -> (r: Result<ByteViewString, CacheError>) ensures loaded(self.of(), r) { unimplemented!() } }
impl SourceFilesCache { #[verifier::external_body] pub fn fetch_file(&self, s: &Scope, f: RemoteFile, shared: bool) -> (r: Fetched) ensures r.of() == f { unimplemented!() } }
#[verifier::external_body] pub fn vp_not_found(r: &Result<ByteViewString, CacheError>) -> (b: bool) ensures b == (*r matches Err(CacheError::NotFound)) { unimplemented!() }
#[verifier::external_body] pub struct Artifacts { s: String }
impl Artifacts {
    pub uninterp spec fn at(&self, u: Str) -> Option<IndividualArtifact>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|u: Str| self.at(u) is None { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, u: &String) -> (r: Option<&IndividualArtifact>) ensures match r { Some(x) => self.at(u@) == Some(*x), None => self.at(u@) is None } { unimplemented!() }
    pub fn vp_get_with(&self, u: String) -> (r: Option<(String, &IndividualArtifact)>) ensures match r { Some((k, x)) => k == u && self.at(u@) == Some(*x), None => self.at(u@) is None } { match self.get(&u) { Some(x) => Some((u, x)), None => None } }
}
pub uninterp spec fn id_in(text: Str) -> Option<DebugId>;
#[verifier::external_body] pub fn discover_debug_id(s: &ByteViewString) -> (r: Option<DebugId>) ensures r == id_in(s.view()) { unimplemented!() }
#[verifier::external_body] pub fn vp_view(s: &ByteViewString) -> (r: &str) ensures r@ == s.view() { unimplemented!() }
pub struct ArtifactFetcher { pub individual_artifacts: Artifacts, pub artifact_bundles: Bundles, pub files_in_bundles: FileInBundleCache, pub sourcefiles_cache: SourceFilesCache, pub scope: Scope, pub release: Option<String>, pub dist: Option<String> }
#[verifier::external_body] pub struct Bundles { s: String }
#[verifier::external_body] pub struct FileInBundleCache { s: String }
/// a bundle's address, and the bundle if it could be opened
pub open spec fn opened(x: (&RemoteFileUri, &Result<(ArtifactBundle, ResolvedWith), CacheError>)) -> (RemoteFileUri, Option<(ArtifactBundle, ResolvedWith)>) { (*x.0, match *x.1 { Ok(b) => Some(b), Err(_) => None }) }
pub open spec fn opens(v: Seq<(&RemoteFileUri, &Result<(ArtifactBundle, ResolvedWith), CacheError>)>) -> Seq<(RemoteFileUri, Option<(ArtifactBundle, ResolvedWith)>)> { v.map_values(|x: (&RemoteFileUri, &Result<(ArtifactBundle, ResolvedWith), CacheError>)| opened(x)) }
impl Bundles {
    /// backwards by their addresses
    pub uninterp spec fn all(&self) -> Seq<(RemoteFileUri, Option<(ArtifactBundle, ResolvedWith)>)>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.all().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vp_backwards(&self) -> (r: Vec<(&RemoteFileUri, &Result<(ArtifactBundle, ResolvedWith), CacheError>)>) ensures opens(r@) == self.all() { unimplemented!() }
    #[verifier::external_body] pub fn vp_keys(&self) -> (r: Vec<RemoteFileUri>) ensures r@ == uris(self.all()) { unimplemented!() }
}
/// what was found in these bundles by an earlier request
pub uninterp spec fn remembered(v: Seq<RemoteFileUri>, k: Key, r: CachedFileEntry) -> bool;
impl FileInBundleCache {
    #[verifier::external_body] pub fn try_get(&self, v: Vec<RemoteFileUri>, k: FileKey) -> (r: Option<(RemoteFileUri, CachedFileEntry, ResolvedWith)>) ensures match r { Some((u, e, _)) => remembered(v@, kv(k), e), None => true } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, u: &RemoteFileUri, k: &FileKey, w: ResolvedWith, e: &CachedFileEntry) { unimplemented!() }
}
pub uninterp spec fn described(abs: Option<Str>, d: SourceFileDescriptor, r: Result<CachedFile, CacheError>) -> bool;
impl CachedFile { #[verifier::external_body] pub fn from_descriptor(abs: Option<&str>, d: SourceFileDescriptor) -> (r: Result<CachedFile, CacheError>) ensures described(sv(abs), d, r) { unimplemented!() } }
pub type Opened = Seq<(RemoteFileUri, Option<(ArtifactBundle, ResolvedWith)>)>;
pub open spec fn has_id(x: Option<(ArtifactBundle, ResolvedWith)>, d: DebugId, t: SourceFileType) -> Option<SourceFileDescriptor> { match x { Some(b) => b.0.holds().by_id(d, t), None => None } }
pub open spec fn has_url(x: Option<(ArtifactBundle, ResolvedWith)>, u: Str) -> Option<SourceFileDescriptor> { match x { Some(b) => b.0.holds().by_url(u), None => None } }
pub open spec fn none_by_id(v: Opened, d: DebugId, t: SourceFileType, n: int) -> bool { forall|j: int| 0 <= j < n ==> has_id((#[trigger] v[j]).1, d, t) is None }
pub open spec fn none_by_url(v: Opened, u: Str, n: int) -> bool { forall|j: int| 0 <= j < n ==> has_url((#[trigger] v[j]).1, u) is None }
pub open spec fn no_ids(v: Opened, k: Key) -> bool { match key_id(k) { Some(d) => none_by_id(v, d, key_type(k), v.len() as int), None => true } }
pub open spec fn no_urls(v: Opened, c: Seq<Str>, n: int) -> bool { forall|j: int| 0 <= j < n ==> none_by_url(v, #[trigger] c[j], v.len() as int) }
pub open spec fn bundled(e: CachedFileEntry, u: RemoteFileUri, k: Key, d: SourceFileDescriptor) -> bool { (e.uri matches CachedFileUri::Bundled(x, y) && x == u && kv(y) == k) && described(key_path(k), d, e.entry) }
/// by debug id in the first bundle that has it, otherwise by the first address that one has, in the first such bundle
pub open spec fn first_id(v: Opened, k: Key, e: CachedFileEntry) -> bool { match key_id(k) { Some(d) => exists|i: int| 0 <= i < v.len() && none_by_id(v, d, key_type(k), i) && has_id((#[trigger] v[i]).1, d, key_type(k)) is Some && bundled(e, v[i].0, k, has_id(v[i].1, d, key_type(k))->Some_0), None => false } }
pub open spec fn first_url(v: Opened, k: Key, e: CachedFileEntry) -> bool { no_ids(v, k) && match key_path(k) { Some(p) => exists|c: int, i: int| 0 <= c < candidates(p).len() && 0 <= i < v.len() && no_urls(v, candidates(p), c) && none_by_url(v, #[trigger] candidates(p)[c], i) && has_url((#[trigger] v[i]).1, candidates(p)[c]) is Some && bundled(e, v[i].0, k, has_url(v[i].1, candidates(p)[c])->Some_0), None => false } }
pub open spec fn nowhere(v: Opened, k: Key) -> bool { no_ids(v, k) && match key_path(k) { Some(p) => no_urls(v, candidates(p), candidates(p).len() as int), None => true } }
pub open spec fn uris(v: Opened) -> Seq<RemoteFileUri> { Seq::new(v.len(), |i: int| v[i].0) }
pub open spec fn in_bundles(v: Opened, k: Key, r: Option<CachedFileEntry>) -> bool { match r { Some(e) => remembered(uris(v), k, e) || first_id(v, k, e) || first_url(v, k, e), None => nowhere(v, k) } }
/// the first of these addresses that is known
pub open spec fn known(a: Artifacts, v: Seq<Str>) -> Option<Str>
    decreases v.len()
{ if v.len() == 0 { None } else if a.at(v[0]) is Some { Some(v[0]) } else { known(a, v.skip(1)) } }
pub open spec fn known_for(a: Artifacts, k: Key) -> Option<IndividualArtifact> { match key_path(k) { Some(p) => match known(a, candidates(p)) { Some(u) => a.at(u), None => None }, None => None } }
/// the file of an artifact
pub open spec fn file_of(e: CachedFileEntry, x: IndividualArtifact, abs: Str) -> bool {
    e.uri == CachedFileUri::IndividualFile(x.remote_file.at()) && e.resolved_with == x.resolved_with
    && (exists|c: Result<ByteViewString, CacheError>| #[trigger] loaded(x.remote_file, c) && match e.entry {
        Ok(f) => f.contents is Some && ((c matches Ok(t) && t.view() == f.contents->Some_0.view()) || (c matches Err(CacheError::NotFound) && !x.headers.none() && f.contents->Some_0.view() == Seq::<char>::empty()))
            && olink(f.sourcemap_url) == map_of(abs, x.headers, f.contents->Some_0.view()) && f.debug_id == id_in(f.contents->Some_0.view()),
        Err(e) => c == Err::<ByteViewString, CacheError>(e) })
}
pub open spec fn found_one(r: Option<(String, &IndividualArtifact)>, a: Artifacts, v: Seq<Str>, i: int) -> bool {
    match r { None => forall|j: int| 0 <= j < i ==> a.at(#[trigger] v[j]) is None, Some((u, x)) => known(a, v) == Some(u@) && a.at(u@) == Some(*x) }
}
pub proof fn lemma_known(a: Artifacts, v: Seq<Str>, i: int)
    requires 0 <= i <= v.len(), forall|j: int| 0 <= j < i ==> a.at(#[trigger] v[j]) is None
    ensures i < v.len() && a.at(v[i]) is Some ==> known(a, v) == Some(v[i]), i == v.len() ==> known(a, v) is None
    decreases i
{ if i > 0 { assert(v.skip(1)[i - 1] == v[i] || i == v.len()); assert forall|j: int| 0 <= j < i - 1 implies a.at(#[trigger] v.skip(1)[j]) is None by { assert(v.skip(1)[j] == v[j + 1]); } lemma_known(a, v.skip(1), i - 1); } }
impl ArtifactFetcher {
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::try_fetch_file_from_artifacts async iters=get_release_file_candidate_urls res=map
//@drop? self . metrics
//@sub? . get ( & url ) . map ( | artifact | ( url , artifact ) ) ==> . vp_get_with ( url )
//@sub? artifact_contents == Err ( CacheError :: NotFound ) ==> vp_not_found ( & artifact_contents )
//@sub? ByteViewString :: from ( String :: new ( ) ) ==> ByteViewString :: from ( vp_new_string ( ) )
//@sub? & artifact . headers , & contents ==> & artifact . headers , vp_view ( & contents )
//@sub? sourcemap_url . map ( Arc :: new ) ==> sourcemap_url
//@ret r
//@spec
    ensures match known_for(old(self).individual_artifacts, kv(*key)) { Some(x) => r is Some && file_of(r->Some_0, x, key_path(kv(*key))->Some_0), None => r is None }
//@start
    proof { match key_path(kv(*key)) { Some(p) => { if forall|u: Str| old(self).individual_artifacts.at(u) is None { lemma_known(old(self).individual_artifacts, candidates(p), candidates(p).len() as int); } } None => {} } }
//@loop 0 iter=it
    invariant found_one(vp_acc, self.individual_artifacts, oview(it.seq()), it.index@), oview(it.seq()) == candidates(abs_path@), *self == *old(self),
        it.index@ == it.seq().len() && vp_acc is None ==> known(self.individual_artifacts, candidates(abs_path@)) is None,
//@body 0
    proof { let v = candidates(abs_path@); assert(oview(it.seq())[it.index@] == it.seq()[it.index@]@); if vp_acc is None { lemma_known(self.individual_artifacts, v, it.index@); if self.individual_artifacts.at(v[it.index@]) is None { lemma_known(self.individual_artifacts, v, it.index@ + 1); } } }
//@end
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::try_get_file_from_bundles nloops=3 while=0,2 stub=from_descriptor
//@drop? self . metrics . record_file_found_in_bundle
//@sub? self . artifact_bundles . keys ( ) . rev ( ) . cloned ( ) ==> self . artifact_bundles . vp_keys ( )
//@sub? self . artifact_bundles . iter ( ) . rev ( ) ==> self . artifact_bundles . vp_backwards ( )
//@sub? if let Some ( Ok ( ( _ , bundle_resolved_with ) ) ) = self . artifact_bundles . get ( & bundle_uri ) ==> if vp_sometimes ( )
//@ret r
//@spec
    ensures in_bundles(old(self).artifact_bundles.all(), kv(*key), r)
//@loop 0
    invariant vp_i0 <= vp_v0@.len(), opens(vp_v0@) == self.artifact_bundles.all(), self.artifact_bundles == old(self).artifact_bundles, none_by_id(opens(vp_v0@), debug_id, ty, vp_i0 as int),
    decreases vp_v0@.len() - vp_i0,
//@body 0
    proof { assert(opens(vp_v0@)[vp_i0 as int] == opened(vp_v0@[vp_i0 as int])); }
//@loop 1 iter=it
    invariant oview(it.seq()) == candidates(abs_path@), self.artifact_bundles == old(self).artifact_bundles, no_ids(self.artifact_bundles.all(), kv(*key)), no_urls(self.artifact_bundles.all(), candidates(abs_path@), it.index@),
//@body 1
    proof { assert(oview(it.seq())[it.index@] == it.seq()[it.index@]@); }
//@loop 2
    invariant vp_i2 <= vp_v2@.len(), opens(vp_v2@) == self.artifact_bundles.all(), self.artifact_bundles == old(self).artifact_bundles, none_by_url(opens(vp_v2@), url@, vp_i2 as int),
    decreases vp_v2@.len() - vp_i2,
//@body 2
    proof { assert(opens(vp_v2@)[vp_i2 as int] == opened(vp_v2@[vp_i2 as int])); }
//@end
// ---- calls, in order ----
    pub uninterp spec fn log(&self) -> Seq<Call>;
    #[verifier::external_body] pub fn vp_get_file(&mut self, k: &FileKey) -> (r: CachedFileEntry) ensures final(self).log() == old(self).log().push(Call::File(kv(*k), r)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_bundles(&mut self, k: &FileKey) -> (r: Option<CachedFileEntry>) ensures final(self).log() == old(self).log().push(Call::Bundles(kv(*k), r)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_artifacts(&mut self, k: &FileKey) -> (r: Option<CachedFileEntry>) ensures final(self).log() == old(self).log().push(Call::Artifacts(kv(*k), r)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_query(&mut self, k: &FileKey) -> (r: bool) ensures final(self).log() == old(self).log().push(Call::Query(kv(*k), r)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_scrape(&mut self, k: &FileKey) -> (r: CachedFileEntry) ensures final(self).log() == old(self).log().push(Call::Scrape(kv(*k), r)) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sourcemap_cache(&self, m: &CachedFileEntry, s: CachedFileEntry) -> (r: CachedFileEntry<OwnedSourceMapCache>) ensures made_of(r, *m, s) { unimplemented!() }
    #[verifier::external_body] pub fn query_sentry_for_files(&mut self, d: BTreeSet<DebugId>, f: BTreeSet<String>) -> (r: bool) ensures final(self).log() == old(self).log().push(Call::Ask(d, f, r)) { unimplemented!() }
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::fetch_minified_and_sourcemap async stub=clone,fetch_sourcemap_cache
//@drop? self . metrics
//@sub? self . get_file ( ==> self . vp_get_file (
//@sub? debug_id . or ( source_debug_id ) ==> vp_or ( debug_id , source_debug_id )
//@sub? rand :: random :: < f64 > ( ) < 0.0001 ==> vp_sometimes ( )
//@sub? minified_source . sourcemap_url . as_deref ( ) ==> minified_source . sourcemap_url . as_ref ( )
//@sub? abs_path . clone ( ) ==> vp_copy ( & abs_path )
//@sub? url . clone ( ) ==> vp_copy ( url )
//@sub? matches ! ( sourcemap . uri , CachedFileUri :: Embedded ) ==> vp_sometimes ( )
//@ret r
//@spec
    ensures took(old(self).log(), final(self).log(), abs_path@, debug_id, r.0, r.1)
//@end
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::get_file async stub=scrape
//@drop? self . metrics
//@drop? self . scraping_attempts
//@sub? self . try_get_file_from_bundles ( ==> self . vp_bundles (
//@sub? self . try_fetch_file_from_artifacts ( ==> self . vp_artifacts (
//@sub? self . query_sentry_for_file ( ==> self . vp_query (
//@sub? self . scrape ( ==> self . vp_scrape (
//@ret r
//@spec
    ensures sought(old(self).log(), final(self).log(), kv(*key), r)
//@end
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::query_sentry_for_file async stub=query_sentry_for_files
//@ret r
//@spec
    ensures final(self).log().len() == old(self).log().len() + 1, asked_for(final(self).log().last(), kv(*key), r)
//@end
}
pub fn vp_or(a: Option<DebugId>, b: Option<DebugId>) -> (r: Option<DebugId>) ensures r == (if a is Some { a } else { b }) { match a { Some(x) => Some(x), None => b } }
#[verifier::external_body] pub fn vp_sometimes() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { v: Vec<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn set(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.set() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) ensures final(self).set() == old(self).set().insert(x) { unimplemented!() }
}
pub ghost enum Call { File(Key, CachedFileEntry), Bundles(Key, Option<CachedFileEntry>), Artifacts(Key, Option<CachedFileEntry>), Query(Key, bool), Scrape(Key, CachedFileEntry), Ask(BTreeSet<DebugId>, BTreeSet<String>, bool) }
pub uninterp spec fn made_of(r: CachedFileEntry<OwnedSourceMapCache>, m: CachedFileEntry, s: CachedFileEntry) -> bool;
/// the text found in the reference itself
pub open spec fn inline(s: CachedFileEntry, t: Str) -> bool { s.uri is Embedded && s.entry is Ok && s.entry->Ok_0.contents is Some && s.entry->Ok_0.contents->Some_0.view() == t }
/// the file is looked up by address and debug id; its source map by what it refers to and the debug id, its own one if none was given
pub open spec fn took(a: Seq<Call>, b: Seq<Call>, abs: Str, id: Option<DebugId>, m: CachedFileEntry, c: Option<CachedFileEntry<OwnedSourceMapCache>>) -> bool {
    let first = a.push(Call::File(Key::Min(abs, id), m)); let did = if id is Some { id } else { file_id(m) };
    match file_link(m) {
        None => if did is None { b == first && c is None } else { via(first, b, Key::Map(None, did), m, c) },
        Some(Link::Data(t)) => b == first && via_text(m, c, t),
        Some(Link::Remote(u)) => via(first, b, Key::Map(Some(u), did), m, c),
    }
}
pub open spec fn via(a: Seq<Call>, b: Seq<Call>, k: Key, m: CachedFileEntry, c: Option<CachedFileEntry<OwnedSourceMapCache>>) -> bool { match c { Some(x) => exists|s: CachedFileEntry| made_of(x, m, s) && b == #[trigger] a.push(Call::File(k, s)), None => false } }
pub open spec fn via_text(m: CachedFileEntry, c: Option<CachedFileEntry<OwnedSourceMapCache>>, t: Str) -> bool { match c { Some(x) => exists|s: CachedFileEntry| #[trigger] made_of(x, m, s) && inline(s, t), None => false } }
/// bundles, then single artifacts, then both again after Sentry was asked, then the web
pub open spec fn sought(a: Seq<Call>, b: Seq<Call>, k: Key, r: CachedFileEntry) -> bool {
    let one = a.push(Call::Bundles(k, Some(r))); let n1 = a.push(Call::Bundles(k, None)); let n2 = n1.push(Call::Artifacts(k, None)); let no = n2.push(Call::Query(k, false)); let yes = n2.push(Call::Query(k, true)); let y1 = yes.push(Call::Bundles(k, None));
    b == one || b == n1.push(Call::Artifacts(k, Some(r))) || b == no.push(Call::Scrape(k, r)) || b == yes.push(Call::Bundles(k, Some(r))) || b == y1.push(Call::Artifacts(k, Some(r))) || b == y1.push(Call::Artifacts(k, None)).push(Call::Scrape(k, r))
}
pub open spec fn asked_for(c: Call, k: Key, r: bool) -> bool {
    c matches Call::Ask(d, f, x) && x == r && d.set() =~= (match key_id(k) { Some(i) => Set::empty().insert(i), None => Set::empty() })
    && match key_path(k) { Some(p) => exists|t: String| f.set() =~= #[trigger] Set::empty().insert(t) && t@ == stem(p, file_suffixes()), None => f.set() =~= Set::empty() }
}

// ---- the base of source files --------------------------------------------------------------------------------
#[verifier::external_body] pub struct Modules { s: String }
impl Modules {
    pub uninterp spec fn at(&self, k: Str) -> Option<SourceMapModule>;
    #[verifier::external_body] pub fn vp_entry(&mut self, k: &str, m: SourceMapModule) -> (r: &mut SourceMapModule)
        ensures *r == (match old(self).at(k@) { Some(x) => x, None => m }), final(self).at(k@) == Some(*final(r)), forall|x: Str| x != k@ ==> final(self).at(x) == old(self).at(x) { unimplemented!() }
}
pub open spec fn settled(m: SourceMapModule) -> bool { m.was_fetched ==> m.source_file_base is Some && m.source_file_base->Some_0@ == (match file_link(m.minified_source) { Some(Link::Remote(u)) => u, _ => m.abs_path@ }) }
pub open spec fn all_settled(a: Modules) -> bool { forall|k: Str| (#[trigger] a.at(k)) is Some ==> settled(a.at(k)->Some_0) }
pub struct SourceMapLookup { pub modules_by_abs_path: Modules, pub fetcher: ArtifactFetcher }
impl SourceMapLookup {
//@fn crates/symbolicator-js/src/lookup.rs SourceMapLookup::get_module async
//@sub? . entry ( abs_path . to_owned ( ) ) . or_insert_with ( || SourceMapModule :: new ( abs_path , None ) ) ==> . vp_entry ( abs_path , SourceMapModule :: new ( abs_path , None ) )
//@sub? minified_source . sourcemap_url . as_deref ( ) ==> minified_source . sourcemap_url . as_ref ( )
//@sub? module . abs_path . clone ( ) ==> vp_copy ( & module . abs_path )
//@sub? url . clone ( ) ==> vp_copy ( url )
//@ret r
//@spec
    requires all_settled(old(self).modules_by_abs_path)
    ensures r.was_fetched, settled(*r), match old(self).modules_by_abs_path.at(abs_path@) { Some(m) => r.abs_path@ == m.abs_path@ && r.debug_id == m.debug_id && (m.was_fetched ==> *r == m), None => r.abs_path@ == abs_path@ && r.debug_id is None },
        forall|k: Str| k != abs_path@ ==> final(self).modules_by_abs_path.at(k) == old(self).modules_by_abs_path.at(k)
//@end
}
}
fn main() {}
