use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../js_urls.rs

// ---- function names ------------------------------------------------------------------------------------
pub open spec fn useless(s: Str) -> bool { s == "<anonymous>"@ || s == "__webpack_require__"@ || s == "__webpack_modules__"@ }
pub trait VpOneOf { spec fn texts(&self) -> Seq<Str>; fn vp_one_of(&self, x: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < self.texts().len() && #[trigger] self.texts()[i] == x@; }
impl<const N: usize> VpOneOf for [&'static str; N] { open spec fn texts(&self) -> Seq<Str> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn vp_one_of(&self, x: &str) -> bool { self.contains(&x) } }
//@item crates/symbolicator-js/src/utils.rs USELESS_FN_NAMES
//@isub & str ==> & 'static str
/// a usable token name, else the name the frame above was called with, else the name of the minified function
pub open spec fn shown(frame: Option<Str>, token: Str, callsite: Option<Str>) -> Str {
    if !useless(token) { token } else { match callsite { Some(c) if c.len() > 0 => c, _ => match frame { Some(f) => f, None => token } } }
}
pub open spec fn ov(x: Option<&str>) -> Option<Str> { match x { Some(s) => Some(s@), None => None } }
//@fn crates/symbolicator-js/src/utils.rs get_function_for_token
//@sub? USELESS_FN_NAMES . contains ( & token_fn_name ) ==> USELESS_FN_NAMES . vp_one_of ( token_fn_name )
//@ret r
//@spec
    ensures r@ == shown(ov(frame_fn_name), token_fn_name@, ov(callsite_fn_name))
//@start
    proof { let t = USELESS_FN_NAMES.texts(); assert(t.len() == 3); assert(t[0] == "<anonymous>"@); assert(t[1] == "__webpack_require__"@); assert(t[2] == "__webpack_modules__"@); }
//@end

/// runs of equal neighbours
pub open spec fn groups(p: Seq<Str>) -> Seq<Seq<Str>>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else {
        let g = groups(p.drop_last()); let x = p.last();
        if g.len() > 0 && g.last().last() == x { g.drop_last().push(g.last().push(x)) } else { g.push(seq![x]) }
    }
}
pub open spec fn group_text(g: Seq<Str>) -> Str { if g.len() == 1 { g[0] } else { "{"@ + g[0] + "#"@ + dec(g.len() as int) + "}"@ } }
pub open spec fn group_texts(g: Seq<Seq<Str>>) -> Seq<Str> { Seq::new(g.len(), |i: int| group_text(g[i])) }
/// the texts with a separator between them
pub open spec fn joined(v: Seq<Str>, sep: Str) -> Str
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
/// every run of equal components but the last component is shown once with its length
pub open spec fn folded(name: Str) -> Str {
    let p = split_c(name, '.');
    if p.len() == 1 { name } else { joined(group_texts(groups(p.drop_last())), "."@) + "."@ + p.last() }
}
pub proof fn lemma_e() ensures forall|x: Str| #[trigger] (Seq::<char>::empty() + x) =~= x {}
pub open spec fn gview(g: Seq<Vec<&str>>) -> Seq<Seq<Str>> { Seq::new(g.len(), |i: int| rview(g[i]@)) }
pub open spec fn grouped_is(g: Seq<Vec<&str>>, p: Seq<Str>) -> bool { if p.len() == 0 { g.len() == 1 && g[0]@.len() == 0 } else { gview(g) =~= groups(p) } }
pub proof fn lemma_groups(p: Seq<Str>) ensures p.len() > 0 ==> groups(p).len() > 0, forall|i: int| 0 <= i < groups(p).len() ==> (#[trigger] groups(p)[i]).len() > 0 decreases p.len()
{
    if p.len() > 0 {
        let d = p.drop_last(); lemma_groups(d); let g = groups(d); let x = p.last();
        assert forall|i: int| 0 <= i < groups(p).len() implies (#[trigger] groups(p)[i]).len() > 0 by { if g.len() > 0 && g.last().last() == x { if i < g.len() - 1 { assert(groups(p)[i] == g[i]); } } else if i < g.len() { assert(groups(p)[i] == g[i]); } }
    }
}
pub proof fn lemma_gview(g: Seq<Vec<&str>>)
    ensures forall|x: Vec<&str>| (#[trigger] gview(g.push(x))) =~= gview(g).push(rview(x@)), g.len() > 0 ==> forall|x: Vec<&str>| (#[trigger] gview(g.drop_last().push(x))) =~= gview(g).drop_last().push(rview(x@))
{}
pub proof fn lemma_push(v: Seq<&str>, s: &str) ensures rview(v.push(s)) =~= rview(v).push(s@) {}
/// one more component
pub open spec fn grown(h: Seq<Vec<&str>>, g: Seq<Vec<&str>>, s: &str) -> bool {
    if g.last()@.len() == 0 || g.last()@.last()@ == s@ { h.len() == g.len() && h.drop_last() =~= g.drop_last() && h.last()@ == g.last()@.push(s) } else { h.len() == g.len() + 1 && h.drop_last() =~= g && h.last()@ =~= seq![s] }
}
pub proof fn lemma_grow(g: Seq<Vec<&str>>, p: Seq<&str>, n: int)
    requires grouped_is(g, rview(p).take(n)), 0 <= n < p.len(), p.len() < usize::MAX
    ensures g.len() > 0, forall|h: Seq<Vec<&str>>| grown(h, g, p[n]) ==> #[trigger] grouped_is(h, rview(p).take(n + 1))
{
    let q = rview(p).take(n); let q1 = rview(p).take(n + 1); lemma_groups(q); assert(q1.drop_last() =~= q); assert(q1.last() == p[n]@);
    if n > 0 { assert(g.len() == groups(q).len()); assert(gview(g)[g.len() - 1] == groups(q)[g.len() - 1]); assert(gview(g)[g.len() - 1] =~= rview(g.last()@)); assert(groups(q).last().len() > 0); assert(groups(q).last().last() == g.last()@.last()@); } else { assert(q.len() == 0); assert(groups(q) =~= Seq::empty()); }
    assert forall|h: Seq<Vec<&str>>| #[trigger] grown(h, g, p[n]) implies grouped_is(h, q1) by {
        lemma_push(g.last()@, p[n]);
        if n == 0 {
            assert(g.last()@ =~= Seq::empty()); assert(h.len() == 1); assert(gview(h)[0] =~= rview(h.last()@)); assert(rview(h.last()@) =~= seq![p[0]@]);
            assert(groups(q1) =~= seq![seq![p[0]@]]); assert(gview(h) =~= groups(q1));
        } else if g.last()@.last()@ == p[n]@ {
            assert(groups(q1) == groups(q).drop_last().push(groups(q).last().push(p[n]@)));
            assert forall|i: int| 0 <= i < h.len() implies gview(h)[i] =~= groups(q1)[i] by { if i < g.len() - 1 { assert(h.drop_last()[i] == g.drop_last()[i]); assert(gview(h)[i] == gview(g)[i]); } else { assert(h[i] == h.last()); } }
            assert(gview(h) =~= groups(q1));
        } else {
            assert(groups(q1) == groups(q).push(seq![p[n]@]));
            assert forall|i: int| 0 <= i < h.len() implies gview(h)[i] =~= groups(q1)[i] by { if i < g.len() { assert(h.drop_last()[i] == g[i]); assert(gview(h)[i] == gview(g)[i]); } else { assert(h[i] == h.last()); assert(rview(h.last()@) =~= seq![p[n]@]); } }
            assert(gview(h) =~= groups(q1));
        }
    }
}
pub trait VpSplitAll { fn vp_split_all(&self, c: char) -> Vec<&str>; }
impl VpSplitAll for str { #[verifier::external_body] fn vp_split_all(&self, c: char) -> (r: Vec<&str>) ensures rview(r@) == split_c(self@, c), r@.len() == split_c(self@, c).len() { unimplemented!() } }
pub trait VpLastMut<T> { spec fn lv(&self) -> Seq<T>; fn vp_last_mut(&mut self) -> (r: Option<&mut T>)
    ensures (r matches Some(x) ==> old(self).lv().len() > 0 && *x == old(self).lv().last() && final(self).lv() == old(self).lv().drop_last().push(*final(x))), r is None ==> old(self).lv().len() == 0 && final(self).lv() == old(self).lv(); }
impl<T> VpLastMut<T> for Vec<T> { open spec fn lv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_last_mut(&mut self) -> Option<&mut T> { self.last_mut() } }
pub trait VpLastIs { fn vp_last_is(&self, x: &str) -> bool; }
impl<'a> VpLastIs for Vec<&'a str> { #[verifier::external_body] fn vp_last_is(&self, x: &str) -> (r: bool) ensures r == (self@.len() > 0 && self@.last()@ == x@) { unimplemented!() } }
pub trait VpJoin { fn vp_join(&self, sep: &str) -> String; }
impl VpJoin for Vec<String> { #[verifier::external_body] fn vp_join(&self, sep: &str) -> (r: String) ensures r@ == joined(oview(self@), sep@) { self.join(sep) } }
pub proof fn lemma_texts(d: Seq<Str>) ensures group_texts(groups(d)).take(groups(d).len() as int) =~= group_texts(groups(d)), forall|v: Seq<String>, s: String, n: int| 0 <= n < groups(d).len() && oview(v) =~= group_texts(groups(d)).take(n) && s@ == group_text(groups(d)[n]) ==> (#[trigger] oview(v.push(s))) =~= (#[trigger] group_texts(groups(d)).take(n + 1)) { }
pub open spec fn oview(v: Seq<String>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k]@) }
pub trait VpFirst<'a> { fn vp_first(&self) -> Option<&&'a str>; }
impl<'a> VpFirst<'a> for Vec<&'a str> { #[verifier::external_body] fn vp_first(&self) -> (r: Option<&&'a str>) ensures r is Some == (self@.len() > 0), r is Some ==> *r->Some_0 == self@[0] { unimplemented!() } }
//@fn crates/symbolicator-js/src/utils.rs fold_function_name nloops=2
//@sub? function_name . split ( '.' ) . collect ( ) ==> function_name . vp_split_all ( '.' )
//@sub? grouped . last_mut ( ) ==> grouped . vp_last_mut ( )
//@sub? current_group . last ( ) == Some ( & part ) ==> current_group . vp_last_is ( part )
//@sub? group . first ( ) ==> group . vp_first ( )
//@sub? . join ( "." ) ==> . vp_join ( "." )
//@ret r
//@spec
    ensures r@ == folded(function_name@)
//@start
    proof { lemma_split_nonempty(function_name@, '.'); let d = split_c(function_name@, '.').drop_last(); assert(d.take(d.len() as int) =~= d); lemma_e(); lemma_texts(d); }
//@loop 0 iter=it
    invariant grouped_is(grouped@, rview(it.seq()).take(it.index@)), rview(it.seq()) =~= split_c(function_name@, '.').drop_last(), it.seq().len() < usize::MAX, it.seq().len() > 0,
//@body 0
    proof { lemma_grow(grouped@, it.seq(), it.index@); }
//@loop 1 iter=it
    invariant gview(grouped@) =~= groups(split_c(function_name@, '.').drop_last()), it.seq().len() == grouped@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == grouped@[i],
        oview(vp_acc@) =~= group_texts(groups(split_c(function_name@, '.').drop_last())).take(it.index@),
//@body 1
    proof { lemma_e(); let d = split_c(function_name@, '.').drop_last(); lemma_groups(d); lemma_texts(d); assert(groups(d)[it.index@].len() > 0); assert(gview(grouped@)[it.index@] == rview(grouped@[it.index@]@)); }
//@end

// ---- file names -----------------------------------------------------------------------------------------
pub open spec fn ns_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' || c == '-' || c == '@' || c == '.' }
/// what follows the namespace, `NAME/./`
pub open spec fn after_ns(s: Str) -> Option<Str> {
    if has_char(s, '/') { let i = choose|i: int| is_first(s, '/', i); if i > 0 && (forall|k: int| 0 <= k < i ==> ns_char(#[trigger] s[k])) && has_prefix(s.skip(i), "/./"@) { Some(s.skip(i + 3)) } else { None } } else { None }
}
/// what follows `webpack://NAME/./` or `webpack-internal://NAME/./`
pub open spec fn webpack_ns(s: Str) -> Option<Str> {
    if has_prefix(s, "webpack://"@) { after_ns(drop_prefix(s, "webpack://"@)) } else if has_prefix(s, "webpack-internal://"@) { after_ns(drop_prefix(s, "webpack-internal://"@)) } else { None }
}
pub open spec fn webpack_file(s: Str) -> Str {
    match cut(s, "/~/"@) { Some((_, rest)) => "~/"@ + rest, None => match webpack_ns(s) { Some(rest) => "./"@ + rest, None =>
        if has_prefix(s, "webpack:///"@) { drop_prefix(s, "webpack:///"@) } else if has_prefix(s, "webpack-internal:///"@) { drop_prefix(s, "webpack-internal:///"@) } else { s } } }
}
impl<'a> VpCow<'a> { #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.view() { unimplemented!() } }
pub struct VpRegErr {}
impl core::fmt::Debug for VpRegErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct Regex { x: u8 }
/// what is left after all matches of a pattern are taken out
pub uninterp spec fn without(pat: Str, s: Str) -> Str;
impl Regex {
    pub uninterp spec fn pat(&self) -> Str;
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex, VpRegErr>) ensures r.is_ok(), r.is_ok() ==> r->Ok_0.pat() == p@ { unimplemented!() }
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures self.pat() == "^webpack(-internal)?://[a-zA-Z0-9_\\-@\\.]+/\\./"@ ==> r == webpack_ns(s@) is Some { unimplemented!() }
    /// the first match replaced
    #[verifier::external_body] pub fn vp_replace<'a>(&self, s: &'a str, rep: &str) -> (r: VpCow<'a>)
        ensures self.pat() == "^webpack(-internal)?://[a-zA-Z0-9_\\-@\\.]+/\\./"@ && !has_char(rep@, '$') ==> r.view() == (match webpack_ns(s@) { Some(x) => rep@ + x, None => s@ }) { unimplemented!() }
    #[verifier::external_body] pub fn replace_all<'a>(&self, s: &'a str, rep: &str) -> (r: VpCow<'a>) ensures rep@.len() == 0 ==> r.view() == without(self.pat(), s@) { unimplemented!() }
}
//@regex crates/symbolicator-js/src/utils.rs WEBPACK_NAMESPACE_RE
//@regex crates/symbolicator-js/src/utils.rs CLEAN_MODULE_RE
//@fn crates/symbolicator-js/src/utils.rs fixup_webpack_filename
//@sub? split_once ( "/~/" ) ==> vp_split_str ( "/~/" )
//@sub? WEBPACK_NAMESPACE_RE . is_match ==> WEBPACK_NAMESPACE_RE ( ) . is_match
//@sub? WEBPACK_NAMESPACE_RE . replace ( ==> WEBPACK_NAMESPACE_RE ( ) . vp_replace (
//@ret r
//@spec
    ensures r@ == webpack_file(filename@)
//@start
    proof { reveal_strlit("./"); }
//@end

// ---- modules --------------------------------------------------------------------------------------------
pub open spec fn two(c: char, a: char, b: char) -> bool { c == a || c == b }
pub open spec fn is_first2(s: Str, a: char, b: char, i: int) -> bool { 0 <= i < s.len() && two(s[i], a, b) && forall|j: int| 0 <= j < i ==> !two(s[j], a, b) }
pub open spec fn is_last2(s: Str, a: char, b: char, i: int) -> bool { 0 <= i < s.len() && two(s[i], a, b) && forall|j: int| i < j < s.len() ==> !two(s[j], a, b) }
/// the text before its first fragment or query
pub open spec fn no_query(s: Str) -> Str { upto2(s, '#', '?') }
pub open spec fn upto2(s: Str, a: char, b: char) -> Str { if exists|i: int| is_first2(s, a, b, i) { s.take(choose|i: int| is_first2(s, a, b, i)) } else { s } }
/// without the extension of the last component
pub open spec fn no_ext(s: Str) -> Str { match last_is(s, '.', '/', '.') { Some(i) => s.subrange(0, i), None => s } }
/// where the last of the two characters is, if it is c
pub open spec fn last_is(s: Str, a: char, b: char, c: char) -> Option<int> { if exists|i: int| is_last2(s, a, b, i) && s[i] == c { Some(choose|i: int| is_last2(s, a, b, i) && s[i] == c) } else { None } }
pub open spec fn no_min(s: Str) -> Str { if has_suffix(s, ".min"@) { drop_suffix(s, ".min"@) } else { s } }
/// path of the file without what says nothing: origin, query, extension
pub open spec fn stem(abs_path: Str) -> Str { no_min(no_ext(no_query(no_origin(abs_path)))) }
pub open spec fn hex_c(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn all_hex(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> hex_c(#[trigger] s[i]) }
/// a hash of 32 or 40 digits
pub open spec fn is_hash(s: Str) -> bool { (s.len() == 32 || s.len() == 40) && all_hex(s) }
pub open spec fn first_hash(v: Seq<Str>, i: int) -> bool { 0 <= i < v.len() && is_hash(v[i]) && forall|j: int| 0 <= j < i ==> !is_hash(#[trigger] v[j]) }
pub open spec fn module_of(abs_path: Str) -> Str {
    let p = stem(abs_path); let v = split_c(p, '/');
    if exists|i: int| first_hash(v, i) { joined(v.skip((choose|i: int| first_hash(v, i)) + 1), "/"@) } else { without(clean_pat(), p) }
}
pub open spec fn nview(v: Seq<(usize, &str)>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k].1@) }
/// the rest of the components, none of which so far is a hash
pub open spec fn ahead(rest: Seq<Str>, v: Seq<Str>) -> bool { rest.len() <= v.len() && rest =~= v.skip(v.len() - rest.len()) && forall|j: int| 0 <= j < v.len() - rest.len() ==> !is_hash(#[trigger] v[j]) }
pub proof fn lemma_hash_len(s: Str) ensures all_hex(s) ==> utf8_len(s) == s.len()
{ if all_hex(s) { assert(ascii(s)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(hex_c(s[i])); } } ax::lemma_ascii_off(s, s.len() as int); } }
pub proof fn lemma_last2(s: Str) ensures last_is(s, '.', '/', '.') matches Some(i) ==> 0 <= i < s.len() && bound_at(s, byte_off(s, i)) == Some(i)
{ match last_is(s, '.', '/', '.') { Some(i) => { assert(is_last2(s, '.', '/', i)); ax::ax_off(s, i); } None => {} } }
/// one component further
pub proof fn lemma_ahead(v: Seq<Str>)
    ensures forall|r: Seq<Str>| ahead(r, v) && r.len() > 0 && !is_hash(r[0]) ==> #[trigger] ahead(r.skip(1), v),
        forall|r: Seq<Str>| #[trigger] ahead(r, v) && r.len() > 0 && is_hash(r[0]) ==> first_hash(v, v.len() - r.len()) && (exists|i: int| first_hash(v, i)) && r.skip(1) =~= v.skip((choose|i: int| first_hash(v, i)) + 1),
        forall|r: Seq<Str>| #[trigger] ahead(r, v) && r.len() == 0 ==> !(exists|i: int| first_hash(v, i)),
        ahead(v, v),
{
    assert forall|r: Seq<Str>| ahead(r, v) && r.len() > 0 && !is_hash(r[0]) implies #[trigger] ahead(r.skip(1), v) by {
        let n = v.len() - r.len(); let q = r.skip(1); assert(r[0] == v.skip(n)[0]); assert(r[0] == v[n]);
        assert forall|k: int| 0 <= k < q.len() implies q[k] == v.skip(n + 1)[k] by { assert(r[k + 1] == v.skip(n)[k + 1]); }
        assert(q =~= v.skip(v.len() - q.len()));
    }
    assert forall|r: Seq<Str>| #[trigger] ahead(r, v) && r.len() > 0 && is_hash(r[0]) implies first_hash(v, v.len() - r.len()) && (exists|i: int| first_hash(v, i)) && r.skip(1) =~= v.skip((choose|i: int| first_hash(v, i)) + 1) by {
        let n = v.len() - r.len(); assert(r[0] == v.skip(n)[0]); assert(first_hash(v, n));
        let c = choose|i: int| first_hash(v, i); assert(first_hash(v, c)); if c < n { assert(!is_hash(v[c])); } else if n < c { assert(!is_hash(v[n])); } assert(c == n);
        let q = r.skip(1); assert forall|k: int| 0 <= k < q.len() implies q[k] == v.skip(n + 1)[k] by { assert(r[k + 1] == v.skip(n)[k + 1]); }
    }
    assert forall|r: Seq<Str>| #[trigger] ahead(r, v) && r.len() == 0 implies !(exists|i: int| first_hash(v, i)) by { if exists|i: int| first_hash(v, i) { let i = choose|i: int| first_hash(v, i); assert(first_hash(v, i)); assert(!is_hash(v[i])); } }
    assert(v.skip(0) =~= v);
}
pub proof fn lemma_join_next(v: Seq<Str>, n: int) requires 0 <= n < v.len() ensures joined(v.take(n + 1), "/"@) == (if n == 0 { v[0] } else { joined(v.take(n), "/"@) + "/"@ + v[n] })
{ assert(v.take(n + 1).drop_last() =~= v.take(n)); assert(v.take(n + 1).last() == v[n]); }
/// leading slashes and useless folders, a commitish at the end
pub open spec fn clean_pat() -> Str { "(?ix)
^
(?:/|  # Leading slashes
(?:
    (?:java)?scripts?|js|build|static|node_modules|bower_components|[_\\.~].*?|  # common folder prefixes
    v?(?:\\d+\\.)*\\d+|   # version numbers, v1, 1.0.0
    [a-f0-9]{7,8}|     # short sha
    [a-f0-9]{32}|      # md5
    [a-f0-9]{40}       # sha1
)/)+|
(?:[-\\.][a-f0-9]{7,}$)  # Ending in a commitish
"@ }
pub trait VpMods { fn vp_split_any(&self, a: char, b: char) -> VpSplit<'_>; fn vp_rmatch2(&self, a: char, b: char) -> VpLastOf<'_>; fn vp_all_hex(&self) -> bool; }
pub struct VpLastOf<'a> { x: &'a str }
impl<'a> VpLastOf<'a> {
    pub uninterp spec fn of(&self) -> (Str, char, char);
    /// the last occurrence, if it is the first of the two characters
    #[verifier::external_body] pub fn vp_next_is(&mut self, t: &str) -> (r: Option<usize>)
        ensures t@.len() == 1 ==> r is Some == last_is(old(self).of().0, old(self).of().1, old(self).of().2, t@[0]) is Some && (r matches Some(n) ==> n == byte_off(old(self).of().0, last_is(old(self).of().0, old(self).of().1, old(self).of().2, t@[0])->Some_0)) { unimplemented!() }
}
impl VpMods for str {
    #[verifier::external_body] fn vp_split_any(&self, a: char, b: char) -> (r: VpSplit<'_>)
        ensures r.rest().len() > 0, r.rest()[0] == upto2(self@, a, b) { unimplemented!() }
    #[verifier::external_body] fn vp_rmatch2(&self, a: char, b: char) -> (r: VpLastOf<'_>) ensures r.of() == (self@, a, b) { unimplemented!() }
    #[verifier::external_body] fn vp_all_hex(&self) -> (r: bool) ensures r == all_hex(self@) { unimplemented!() }
}
impl<'a> VpSplit<'a> {
    /// the pieces that are left, numbered
    #[verifier::external_body] pub fn vp_numbered(self) -> (r: Vec<(usize, &'a str)>) ensures r@.len() == self.rest().len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1@ == self.rest()[k], nview(r@) == self.rest(), nview(r@).take(r@.len() as int) == self.rest() { unimplemented!() }
}
impl<'a> VpCow<'a> { #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.view() { unimplemented!() } }
//@fn crates/symbolicator-js/src/utils.rs generate_module nloops=2
//@sub? path . split ( & [ '#' , '?' ] ) ==> path . vp_split_any ( '#' , '?' )
//@sub? if let Some ( ( idx , "." ) ) = path . rmatch_indices ( & [ '.' , '/' ] ) . next ( ) ==> if let Some ( idx ) = path . vp_rmatch2 ( '.' , '/' ) . vp_next_is ( "." )
//@sub? segment . chars ( ) . all ( | c | c . is_ascii_hexdigit ( ) ) ==> segment . vp_all_hex ( )
//@sub? segment . len ( ) ==> segment . vp_len ( )
//@sub? segments . enumerate ( ) ==> segments . vp_numbered ( )
//@sub? CLEAN_MODULE_RE . replace_all ==> CLEAN_MODULE_RE ( ) . replace_all
//@ret r
//@spec
    ensures r@ == module_of(abs_path@)
//@start
    proof { lemma_last2(no_query(no_origin(abs_path@))); lemma_ahead(split_c(stem(abs_path@), '/')); }
//@loop 0
    invariant path@ == stem(abs_path@), ahead(segments.rest(), split_c(path@, '/')),
    ensures path@ == stem(abs_path@), ahead(segments.rest(), split_c(path@, '/')), segments.rest().len() == 0,
    decreases segments.rest().len(),
//@body 0
    proof { lemma_hash_len(segment@); lemma_ahead(split_c(path@, '/')); }
//@loop 1 iter=it
    invariant s@ == joined(nview(it.seq()).take(it.index@), "/"@), forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k,
//@body 1
    proof { lemma_join_next(nview(it.seq()), it.index@); reveal_strlit("/"); }
//@end

// ---- frames ---------------------------------------------------------------------------------------------
pub open spec fn so(x: Option<String>) -> Option<Str> { match x { Some(s) => Some(s@), None => None } }
/// the scope a token lies in
pub enum ScopeV { Named(Str), Anonymous, Unknown }
/// what the source map says about a place
pub struct TokenV { pub name: Option<Str>, pub scope: ScopeV, pub file: Option<Str>, pub line: int, pub column: int }
#[derive(Clone, Copy)] pub struct Platform { pub x: u8 }
#[derive(Clone, Copy)] pub struct ResolvedWith { pub x: u8 }
pub struct CachedFileUri { pub x: u8 }
impl Clone for CachedFileUri { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item crates/symbolicator-js/src/interface.rs JsFrame derive=
//@item crates/symbolicator-js/src/interface.rs JsFrameData derive=
//@item crates/symbolicator-js/src/interface.rs JsModuleErrorKind derive=
//@item crates/symbolicator-js/src/interface.rs JsModuleError derive=
pub struct ErrSet { pub x: u8 }
impl ErrSet { #[verifier::external_body] pub fn insert(&mut self, e: JsModuleError) -> bool { unimplemented!() } }
pub struct FrameData {}
/// the same texts and numbers
pub open spec fn same_data(a: JsFrameData, b: JsFrameData) -> bool { so(a.sourcemap) == so(b.sourcemap) && a.sourcemap_origin == b.sourcemap_origin && a.resolved_with == b.resolved_with && a.symbolicated == b.symbolicated }
pub open spec fn same_frame(a: JsFrame, b: JsFrame) -> bool {
    same_place(a, b) && oview(a.pre_context@) == oview(b.pre_context@) && so(a.context_line) == so(b.context_line) && oview(a.post_context@) == oview(b.post_context@)
}
/// all but the lines around it
pub open spec fn same_place(a: JsFrame, b: JsFrame) -> bool {
    a.platform == b.platform && so(a.function) == so(b.function) && so(a.filename) == so(b.filename) && so(a.module) == so(b.module) && a.abs_path@ == b.abs_path@ && a.lineno == b.lineno && a.colno == b.colno && so(a.token_name) == so(b.token_name) && same_data(a.data, b.data)
}
impl Clone for JsFrame { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures same_frame(r, *self) { unimplemented!() } }
/// the name of the scope; the generated name of an async function of Dart is replaced by the token's, the code of no function is called anonymous, and where nothing is known the minified name is kept
pub open spec fn scope_text(t: TokenV, raw: Option<Str>) -> Str {
    match t.scope {
        ScopeV::Named(n) => if has_prefix(n, "$async$"@) { match t.name { Some(m) => m, None => n } } else { n },
        ScopeV::Anonymous => "<anonymous>"@,
        ScopeV::Unknown => match raw { Some(f) => f, None => "<unknown>"@ },
    }
}
pub open spec fn fn_name(t: TokenV, raw: Option<Str>, callsite: Option<Str>) -> Str { folded(shown(raw, scope_text(t, raw), callsite)) }
pub uninterp spec fn join_v(base: Str, right: Str) -> Str;
pub open spec fn web(s: Str) -> bool { has_prefix(s, "http:"@) || has_prefix(s, "https:"@) || has_prefix(s, "webpack:"@) || has_prefix(s, "app:"@) }
/// where the source map places the file
pub open spec fn path_of(t: TokenV, raw: JsFrame, base: Option<Str>) -> Str { match t.file { Some(f) => match base { Some(b) => join_v(b, f), None => f }, None => raw.abs_path@ } }
pub open spec fn file_of(t: TokenV, raw: JsFrame) -> Option<Str> { match t.file { Some(f) => Some(if has_prefix(f, "webpack:"@) { webpack_file(f) } else { f }), None => so(raw.filename) } }
/// the module is made up from the file of a bundler, or else from an address, unless the frame has one
pub open spec fn module_name(t: TokenV, raw: JsFrame, base: Option<Str>) -> Option<Str> {
    match t.file {
        Some(f) => if has_prefix(f, "webpack:"@) { Some(module_of(webpack_file(f))) } else if raw.module is None && web(path_of(t, raw, base)) { Some(module_of(path_of(t, raw, base))) } else { so(raw.module) },
        None => so(raw.module),
    }
}
pub open spec fn plus1(n: int) -> int { if n + 1 > u32::MAX { u32::MAX as int } else { n + 1 } }
pub open spec fn mapped(t: TokenV, raw: JsFrame, callsite: Option<Str>, base: Option<Str>, f: JsFrame) -> bool {
    f.data.symbolicated && so(f.function) == Some(fn_name(t, so(raw.function), callsite)) && so(f.token_name) == t.name && f.abs_path@ == path_of(t, raw, base) && so(f.filename) == file_of(t, raw) && so(f.module) == module_name(t, raw, base)
        && f.lineno == plus1(t.line) && f.colno == Some(plus1(t.column) as u32)
}
/// shown as it came, or with the names a token of its place gives it
pub open spec fn named(raw: JsFrame, callsite: Option<Str>, f: JsFrame) -> bool { same_place(f, raw) || exists|t: TokenV, base: Option<Str>| at_place(t, raw) && #[trigger] mapped(t, raw, callsite, base, f) }
/// a token of the source map for the line and column of the frame, counted from zero
pub uninterp spec fn token_at(line: int, col: int, t: TokenV) -> bool;
pub open spec fn at_place(t: TokenV, raw: JsFrame) -> bool { raw.lineno > 0 && token_at(raw.lineno - 1, (match raw.colno { Some(c) => if c > 0 { c - 1 } else { 0 }, None => 0 }), t) }
/// where the source map was found is recorded even if it is broken, and the lines around the frame are shown; nothing else changes
pub open spec fn kept(a: JsFrame, b: JsFrame) -> bool { a.platform == b.platform && so(a.function) == so(b.function) && so(a.filename) == so(b.filename) && so(a.module) == so(b.module) && a.abs_path@ == b.abs_path@ && a.lineno == b.lineno && a.colno == b.colno && so(a.token_name) == so(b.token_name) && a.data.symbolicated == b.data.symbolicated }

pub proof fn lemma_mapped(t: TokenV, raw: JsFrame, cs: Option<Str>, base: Option<Str>, f: JsFrame) requires mapped(t, raw, cs, base, f) ensures forall|g: JsFrame| #[trigger] same_place(g, f) ==> mapped(t, raw, cs, base, g) {}
pub struct SourcePosition { pub line: u32, pub column: u32 }
impl SourcePosition { pub fn new(line: u32, column: u32) -> (r: Self) ensures r.line == line, r.column == column { SourcePosition { line, column } } }
pub enum ScopeLookupResult<'a> { NamedScope(&'a str), AnonymousScope, Unknown }
#[verifier::external_body] pub struct SourceLocation<'a> { x: &'a str }
#[verifier::external_body] pub struct SmFile<'a> { x: &'a str }
impl<'a> SmFile<'a> { #[verifier::external_body] pub fn source(&self) -> Option<&'a str> { unimplemented!() } #[verifier::external_body] pub fn name(&self) -> Option<&'a str> { unimplemented!() } }
impl<'a> SourceLocation<'a> {
    pub uninterp spec fn view(&self) -> TokenV;
    #[verifier::external_body] pub fn name(&self) -> (r: Option<&'a str>) ensures ov(r) == self.view().name { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&'a str>) ensures ov(r) == self.view().file { unimplemented!() }
    #[verifier::external_body] pub fn file(&self) -> Option<SmFile<'a>> { unimplemented!() }
    #[verifier::external_body] pub fn line(&self) -> (r: u32) ensures r == self.view().line { unimplemented!() }
    #[verifier::external_body] pub fn column(&self) -> (r: u32) ensures r == self.view().column { unimplemented!() }
    #[verifier::external_body] pub fn scope(&self) -> (r: ScopeLookupResult<'a>) ensures self.view().scope == (match r { ScopeLookupResult::NamedScope(n) => ScopeV::Named(n@), ScopeLookupResult::AnonymousScope => ScopeV::Anonymous, ScopeLookupResult::Unknown => ScopeV::Unknown }) { unimplemented!() }
}
pub struct SmCache { x: u8 }
impl SmCache { #[verifier::external_body] pub fn lookup(&self, p: SourcePosition) -> (r: Option<SourceLocation<'_>>) ensures r matches Some(t) ==> token_at(p.line as int, p.column as int, t.view()) { unimplemented!() } }
pub struct OwnedSourceMapCache { x: u8 }
impl OwnedSourceMapCache { #[verifier::external_body] pub fn get(&self) -> &SmCache { unimplemented!() } }
pub enum CacheError { NotFound, PermissionDenied(String), Timeout(u8), DownloadError(String), Malformed(String), Unsupported(String), InternalError }
pub struct CachedFile { x: u8 }
impl CachedFile { #[verifier::external_body] pub fn contents(&self) -> &str { unimplemented!() } #[verifier::external_body] pub fn sourcemap_url(&self) -> Option<String> { unimplemented!() } }
pub struct CachedFileEntry<T> { pub uri: CachedFileUri, pub entry: Result<T, CacheError>, pub resolved_with: ResolvedWith }
pub struct SourceMapModule { pub minified_source: CachedFileEntry<CachedFile>, pub smcache: Option<CachedFileEntry<OwnedSourceMapCache>> }
pub struct FileKey { x: u8 }
impl FileKey { #[verifier::external_body] pub fn abs_path(&self) -> Option<&str> { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> FileKey { unimplemented!() } }
impl SourceMapModule { /// where relative file names start
    pub uninterp spec fn base(&self) -> Option<Str>; #[verifier::external_body] pub fn source_file_base(&self) -> (r: Option<&str>) ensures ov(r) == self.base() { unimplemented!() } #[verifier::external_body] pub fn source_file_key(&self, f: &str) -> Option<FileKey> { unimplemented!() } }
#[verifier::external_body] pub struct ModMap { x: u8 }
impl ModMap { #[verifier::external_body] pub fn contains_key(&self, k: &String) -> bool { unimplemented!() } #[verifier::external_body] pub fn insert(&mut self, k: String, m: SourceMapModule) { unimplemented!() } }
pub struct SourceMapLookup { pub modules_by_abs_path: ModMap }
impl SourceMapModule { #[verifier::external_body] pub fn new(p: &str, d: Option<u8>) -> SourceMapModule { unimplemented!() } }
#[verifier::external_body] pub struct Ids { x: u8 }
#[verifier::external_body] pub struct Attempts { x: u8 }
impl SourceMapLookup {
    #[verifier::external_body] pub fn new(s: SourceMapService, r: SymbolicateJsStacktraces) -> SourceMapLookup { unimplemented!() }
    #[verifier::external_body] pub fn record_metrics(&self) { unimplemented!() }
    #[verifier::external_body] pub fn into_records(self) -> (Ids, Attempts) { unimplemented!() }
#[verifier::external_body] pub fn get_module(&mut self, p: &str) -> &SourceMapModule { unimplemented!() } #[verifier::external_body] pub fn get_source_file(&mut self, k: FileKey) -> &CachedFileEntry<CachedFile> { unimplemented!() } }
/// the error says that scraping is disabled
#[verifier::external_body] pub fn vp_disabled(e: &CacheError) -> bool { unimplemented!() }
/// the reference to the source map, if the file was found
#[verifier::external_body] pub fn vp_sm_url(e: &Result<CachedFile, CacheError>) -> Option<String> { unimplemented!() }
/// apply_source_context with the file, if it was found
#[verifier::external_body] pub fn vp_apply(e: &Result<CachedFile, CacheError>, frame: &mut JsFrame) -> (r: bool) ensures same_place(*final(frame), *old(frame)) { unimplemented!() }
pub trait VpDeref { fn vp_deref(&self) -> Option<&str>; }
impl VpDeref for Option<String> { #[verifier::external_body] fn vp_deref(&self) -> (r: Option<&str>) ensures ov(r) == so(*self) { self.as_deref() } }
pub struct SymbolicationStats { pub missing_sourcescontent: u64 }
#[verifier::external_body] pub fn join_paths(base: &str, right: &str) -> (r: String) ensures r@ == join_v(base@, right@) { unimplemented!() }
#[verifier::external_body] pub fn get_context_lines(source: &str, lineno: usize, column: usize, n: Option<usize>) -> Option<(Vec<String>, String, Vec<String>)> { unimplemented!() }
//@fn crates/symbolicator-js/src/symbolication.rs apply_source_context
//@ret r
//@spec
    ensures same_place(*final(frame), *old(frame))
//@end
//@fn crates/symbolicator-js/src/symbolication.rs symbolicate_js_frame async keep=file_name,saturating_add,saturating_sub
//@sub? module . minified_source . entry . as_ref ( ) . map ( | entry | entry . sourcemap_url ( ) ) . ok ( ) . flatten ( ) ==> vp_sm_url ( & module . minified_source . entry )
//@sub? source_file . as_ref ( ) . map_err ( | _ | JsModuleErrorKind :: MissingSource ) . and_then ( | file | apply_source_context ( & mut frame , file . contents ( ) ) ) . is_err ( ) ==> vp_apply ( source_file , & mut frame )
//@sub? Err ( CacheError :: DownloadError ( msg ) ) if msg == "Scraping disabled" => { return Err ( JsModuleErrorKind :: ScrapingDisabled ) ; } Err ( _ ) => return Err ( JsModuleErrorKind :: MissingSource ) , ==> Err ( vp_e ) => { if vp_disabled ( vp_e ) { return Err ( JsModuleErrorKind :: ScrapingDisabled ) ; } return Err ( JsModuleErrorKind :: MissingSource ) ; }
//@sub? Err ( CacheError :: DownloadError ( msg ) ) if msg == "Scraping disabled" => { return Err ( JsModuleErrorKind :: ScrapingDisabled ) ; } Err ( _ ) => return Err ( JsModuleErrorKind :: MissingSourcemap ) , ==> Err ( vp_e ) => { if vp_disabled ( vp_e ) { return Err ( JsModuleErrorKind :: ScrapingDisabled ) ; } return Err ( JsModuleErrorKind :: MissingSourcemap ) ; }
//@sub? sourcemap_label . to_owned ( ) ==> sourcemap_label . clone ( )
//@sub? . as_deref ( ) ==> . vp_deref ( )
//@sub errors : & mut BTreeSet < JsModuleError > ==> errors : & mut ErrSet
//@ret r
//@spec
    ensures r matches Ok(f) ==> named(*old(raw_frame), so(callsite_fn_name), f), kept(*final(raw_frame), *old(raw_frame))
//@drop? stats . missing_sourcescontent += 1 ;
//@before if ! should_apply_source_context
    proof { assert(mapped(token.view(), *old(raw_frame), so(callsite_fn_name), module.base(), frame)); lemma_mapped(token.view(), *old(raw_frame), so(callsite_fn_name), module.base(), frame); }
//@end

// ---- stack traces ---------------------------------------------------------------------------------------
pub struct SourceMapService { x: u8 }
impl SourceMapService { #[verifier::external_body] pub fn clone(&self) -> SourceMapService { unimplemented!() } }
pub struct Scope { x: u8 } pub struct SentrySourceConfig { x: u8 } pub struct JsModule { x: u8 } pub struct ScrapingConfig { x: u8 }
//@item crates/symbolicator-js/src/interface.rs JsStacktrace derive=
//@item crates/symbolicator-js/src/interface.rs SymbolicateJsStacktraces derive=
//@isub Arc < SentrySourceConfig > ==> SentrySourceConfig
//@item crates/symbolicator-js/src/interface.rs CompletedJsSymbolicationResponse derive=
//@isub HashSet < SentryFileId > ==> Ids
//@isub Vec < JsScrapingAttempt > ==> Attempts
impl ErrSet { #[verifier::external_body] pub fn new() -> ErrSet { unimplemented!() } #[verifier::external_body] pub fn vp_list(self) -> Vec<JsModuleError> { unimplemented!() } }
/// without the prefix that old clients left before the address
pub open spec fn no_async(s: Str) -> Str { if has_prefix(s, "async "@) { drop_prefix(s, "async "@) } else { s } }
pub open spec fn prepared1(a: JsFrame, b: JsFrame) -> bool { b.abs_path@ == no_async(a.abs_path@) && b == (JsFrame { abs_path: b.abs_path, ..a }) }
pub open spec fn prepared_n(a: Seq<JsFrame>, b: Seq<JsFrame>, n: int) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < n ==> prepared1(#[trigger] a[i], b[i])) && forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn prepared(a: Seq<JsStacktrace>, b: Seq<JsStacktrace>, n: int) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < n ==> prepared_n((#[trigger] a[i]).frames@, b[i].frames@, a[i].frames@.len() as int)) && forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i] }
impl SourceMapLookup {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/lookup.rs SourceMapLookup::prepare_modules nloops=2 stub=new
//@sub stacktraces : & mut [ JsStacktrace ] ==> stacktraces : & mut Vec < JsStacktrace >
//@sub? insert ( abs_path . to_owned ( ) ==> insert ( abs_path . clone ( )
//@sub? for stacktrace in stacktraces ==> for stacktrace in & mut stacktraces
//@spec
    ensures prepared(old(stacktraces)@, final(stacktraces)@, old(stacktraces)@.len() as int)
//@loop 0
    invariant vp_i0_n == old(stacktraces)@.len(), vp_i0 <= vp_i0_n, prepared(old(stacktraces)@, stacktraces@, vp_i0 as int),
    decreases vp_i0_n - vp_i0,
//@loop 1
    invariant 0 < vp_i0 <= vp_i0_n, vp_i1_n == old(stacktraces)@[vp_i0 - 1].frames@.len(), vp_i1 <= vp_i1_n, prepared_n(old(stacktraces)@[vp_i0 - 1].frames@, stacktrace.frames@, vp_i1 as int),
    decreases vp_i1_n - vp_i1,
//@end
}

/// a frame as shown when the frame above was called with a name, and the name this frame was called with
pub open spec fn step(raw: JsFrame, site: Option<Str>, out: JsFrame, next: Option<Str>) -> bool {
    (kept(out, raw) && next is None) || exists|f: JsFrame| #[trigger] named(raw, site, f) && next == so(f.token_name) && but_token(out, f)
}
pub open spec fn but_token(a: JsFrame, b: JsFrame) -> bool { a.platform == b.platform && so(a.function) == so(b.function) && so(a.filename) == so(b.filename) && so(a.module) == so(b.module) && a.abs_path@ == b.abs_path@ && a.lineno == b.lineno && a.colno == b.colno }
/// the frames so far are there, in order, and each took the name the frame before it was called with; the last was called with next
pub open spec fn chained(raw: Seq<JsFrame>, out: Seq<JsFrame>, next: Option<Str>) -> bool { exists|sites: Seq<Option<Str>>| #[trigger] chain(raw, sites, out) && sites.last() == next }
pub open spec fn chain(raw: Seq<JsFrame>, sites: Seq<Option<Str>>, out: Seq<JsFrame>) -> bool {
    out.len() <= raw.len() && sites.len() == out.len() + 1 && sites[0] is None && forall|i: int| 0 <= i < out.len() ==> step(raw[i], sites[i], #[trigger] out[i], sites[i + 1])
}
pub proof fn lemma_chain0(raw: Seq<JsFrame>) ensures chained(raw, Seq::empty(), None) { assert(chain(raw, seq![None::<Str>], Seq::empty())); }
pub proof fn lemma_chain1(raw: Seq<JsFrame>, out: Seq<JsFrame>, site: Option<Str>, o: JsFrame, next: Option<Str>)
    requires chained(raw, out, site), out.len() < raw.len(), step(raw[out.len() as int], site, o, next)
    ensures chained(raw, out.push(o), next)
{
    let s = choose|sites: Seq<Option<Str>>| #[trigger] chain(raw, sites, out) && sites.last() == site; let q = out.push(o); let s1 = s.push(next);
    assert forall|i: int| 0 <= i < q.len() implies step(raw[i], s1[i], #[trigger] q[i], s1[i + 1]) by { if i < out.len() { assert(q[i] == out[i]); } else { assert(s1[i] == s.last()); } }
    assert(chain(raw, s1, q)); assert(s1.last() == next);
}
pub proof fn lemma_chained(raw: Seq<JsFrame>)
    ensures forall|out: Seq<JsFrame>, site: Option<Str>, o: JsFrame, next: Option<Str>| #[trigger] chained(raw, out, site) && out.len() < raw.len() && step(raw[out.len() as int], site, o, next) ==> #[trigger] chained(raw, out.push(o), next)
{ assert forall|out: Seq<JsFrame>, site: Option<Str>, o: JsFrame, next: Option<Str>| #[trigger] chained(raw, out, site) && out.len() < raw.len() && step(raw[out.len() as int], site, o, next) implies #[trigger] chained(raw, out.push(o), next) by { lemma_chain1(raw, out, site, o, next); } }
pub open spec fn traced(raw: Seq<JsFrame>, out: Seq<JsFrame>) -> bool { out.len() == raw.len() && exists|next: Option<Str>| #[trigger] chained(raw, out, next) }
/// the frames as they came but for the prefix
pub open spec fn answered(raw: Seq<JsStacktrace>, out: Seq<JsStacktrace>, n: int) -> bool { out.len() == n && forall|i: int| 0 <= i < n ==> traced(raw[i].frames@, (#[trigger] out[i]).frames@) }
pub open spec fn response(req: Seq<JsStacktrace>, out: Seq<JsStacktrace>) -> bool { exists|raw: Seq<JsStacktrace>| prepared(req, raw, req.len() as int) && #[trigger] answered(raw, out, req.len() as int) }
#[verifier::external_body] pub fn vp_take_name(x: &mut Option<String>) -> (r: Option<String>) ensures r == *old(x), *final(x) is None { unimplemented!() }
#[verifier::external_body] pub fn vp_swap_names(x: &mut Option<String>, y: &mut Option<String>) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() }
#[verifier::external_body] pub fn record_stacktrace_metrics(p: Option<Platform>, s: SymbolicationStats) { unimplemented!() }
impl SymbolicationStats { #[verifier::external_body] pub fn default() -> SymbolicationStats { unimplemented!() } }
impl SourceMapService {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/symbolication.rs SourceMapService::symbolicate_js async nloops=2 stub=default
//@sub? std :: mem :: take ( & mut request . stacktraces ) ==> vp_take_vec ( & mut request . stacktraces )
//@sub? std :: mem :: take ( & mut callsite_fn_name ) ==> vp_take_name ( & mut callsite_fn_name )
//@sub? std :: mem :: swap ( & mut callsite_fn_name , & mut frame . token_name ) ==> vp_swap_names ( & mut callsite_fn_name , & mut frame . token_name )
//@sub? & mut raw_stacktraces [ .. ] ==> & mut raw_stacktraces
//@sub? BTreeSet :: new ( ) ==> ErrSet :: new ( )
//@sub? errors . into_iter ( ) . collect ( ) ==> errors . vp_list ( )
//@drop? * stats . symbolicated_frames . entry ( raw_frame . platform . clone ( ) ) . or_default ( ) += 1 ;
//@drop? * stats . unsymbolicated_frames . entry ( raw_frame . platform . clone ( ) ) . or_default ( ) += 1 ;
//@drop? stats . num_stacktraces = stacktraces . len ( ) as u64 ;
//@ret r
//@spec
    ensures response(request.stacktraces@, r.stacktraces@)
//@before let mut stats
    let ghost vp_raw = raw_stacktraces@; proof { assert forall|r: Seq<JsFrame>| #[trigger] chained(r, Seq::empty(), None) by { lemma_chain0(r); } }
//@loop 0
    invariant vp_i0_n == vp_raw.len(), raw_stacktraces@.len() == vp_raw.len(), vp_i0 <= vp_i0_n, answered(vp_raw, stacktraces@, vp_i0 as int), forall|j: int| vp_i0 <= j < vp_raw.len() ==> #[trigger] raw_stacktraces@[j] == vp_raw[j],
    decreases vp_i0_n - vp_i0,
//@loop 1
    invariant 0 < vp_i0 <= vp_i0_n, vp_i1_n == vp_raw[vp_i0 - 1].frames@.len(), vp_i1 <= vp_i1_n, raw_stacktrace.frames@.len() == vp_i1_n, symbolicated_frames@.len() == vp_i1, chained(vp_raw[vp_i0 - 1].frames@, symbolicated_frames@, so(callsite_fn_name)),
        forall|j: int| vp_i1 <= j < vp_i1_n ==> #[trigger] raw_stacktrace.frames@[j] == vp_raw[vp_i0 - 1].frames@[j],
    decreases vp_i1_n - vp_i1,
//@body 1
    proof { lemma_chained(vp_raw[vp_i0 - 1].frames@); }
//@end
}
}
fn main() {}
