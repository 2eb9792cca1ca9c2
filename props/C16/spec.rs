use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- text as bytes and lines -------------------------------------------------------------------------
/// the bytes of a text; only their number and where the characters begin matter here
pub uninterp spec fn bytes_of(s: Str) -> Seq<u8>;
pub open spec fn starts_char(b: u8) -> bool { b < 128 || b >= 192 }
/// UTF-8: as many bytes as the encoding has, and exactly the first byte of a character is no continuation byte
#[verifier::external_body]
pub proof fn ax_bytes(s: Str)
    ensures bytes_of(s).len() == utf8_len(s),
        forall|o: int| 0 <= o < utf8_len(s) ==> (starts_char(#[trigger] bytes_of(s)[o]) == (bound_at(s, o) is Some)) {}
pub trait VpBytes { spec fn bts(&self) -> Seq<u8>; fn vp_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bts(); }
impl VpBytes for str { open spec fn bts(&self) -> Seq<u8> { bytes_of(self@) } #[verifier::external_body] fn vp_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
pub trait VpIncl { spec fn n(&self) -> int; fn slice_incl(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b + 1, b < self.n(); }
impl VpIncl for [u8] { open spec fn n(&self) -> int { self@.len() as int } #[verifier::external_body] fn slice_incl(&self, a: usize, b: usize) -> (r: &[u8])
    ensures r@ == self@.subrange(a as int, b + 1) { unimplemented!() } }
pub trait VpUnchecked<T> { spec fn has(&self) -> bool; fn vp_unwrap_unchecked(self) -> (r: T) requires self.has(); }
impl<T> VpUnchecked<T> for Option<T> { open spec fn has(&self) -> bool { self is Some } #[verifier::external_body] fn vp_unwrap_unchecked(self) -> (r: T) ensures r == self->Some_0 { unimplemented!() } }
pub trait VpSat { fn vp_saturating_sub(self, b: usize) -> usize; }
impl VpSat for usize { fn vp_saturating_sub(self, b: usize) -> (r: usize) ensures r == (if self >= b { self - b } else { 0 }) { if self >= b { self - b } else { 0 } } }
pub mod cmp { use super::*; pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } } }
pub trait VpLen { fn vp_blen(&self) -> usize; spec fn cut(&self, a: int) -> bool; fn slice_range(&self, a: usize, b: usize) -> &str requires self.cut(a as int), self.cut(b as int), a <= b; }
impl VpLen for str {
    open spec fn cut(&self, a: int) -> bool { bound_at(self@, a) is Some }
    #[verifier::external_body] fn vp_blen(&self) -> (r: usize) ensures r == utf8_len(self@), r <= isize::MAX { self.len() }
    #[verifier::external_body] fn slice_range(&self, a: usize, b: usize) -> (r: &str)
        ensures r@ == piece(self@, a as int, b as int) { unimplemented!() }
}
/// the text between two byte offsets
pub open spec fn piece(s: Str, a: int, b: int) -> Str { s.subrange(bound_at(s, a)->Some_0, bound_at(s, b)->Some_0) }
/// `str::lines`
pub uninterp spec fn lines_of(s: Str) -> Seq<Str>;
#[verifier::external_body]
pub struct Lines<'a> { s: &'a str }
impl<'a> Lines<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Str>;
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self)
        ensures r.rest() == (if n <= self.rest().len() { self.rest().subrange(n as int, self.rest().len() as int) } else { Seq::<Str>::empty() }) { unimplemented!() }
    /// `(&mut lines).take(n)`: the next `n` lines, or those there are
    #[verifier::external_body] pub fn take_front(&mut self, n: usize) -> (r: Vec<&'a str>)
        ensures r@.len() == (if n <= old(self).rest().len() { n as int } else { old(self).rest().len() as int }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == old(self).rest()[i],
            final(self).rest() == old(self).rest().subrange(r@.len() as int, old(self).rest().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures r is Some == (old(self).rest().len() > 0),
            r is Some ==> r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int) { unimplemented!() }
}
pub trait VpLines { fn vp_lines(&self) -> Lines<'_>; }
impl VpLines for str { #[verifier::external_body] fn vp_lines(&self) -> (r: Lines<'_>) ensures r.rest() == lines_of(self@) { unimplemented!() } }

// ---- the property ------------------------------------------------------------------------------------
/// the greatest character boundary not above `i`
pub open spec fn is_floor(s: Str, i: int, r: int) -> bool {
    if i >= utf8_len(s) { r == utf8_len(s) } else { 0 <= r <= i && i - r <= 3 && bound_at(s, r) is Some && forall|o: int| r < o <= i ==> bound_at(s, o) is None }
}
/// where the shown part of a long line begins and ends: 140 bytes beginning 60 before the column, widened
/// to the beginning or the end of the line when that is less than five bytes away, and the last 140 bytes
/// when it reaches the end
pub open spec fn win_start0(len: int, col: int) -> int { let c = if col <= len { col } else { len }; let s = if c >= 60 { c - 60 } else { 0 }; if s < 5 { 0 } else { s } }
pub open spec fn win_end(len: int, col: int) -> int { let e = if win_start0(len, col) + 140 <= len { win_start0(len, col) + 140 } else { len }; if e > len - 5 { len } else { e } }
pub open spec fn win_start(len: int, col: int) -> int { if win_end(len, col) == len { len - 140 } else { win_start0(len, col) } }
pub open spec fn trimmed_at(line: Str, a: int, b: int) -> Str {
    (if a > 0 { seq!['{', 's', 'n', 'i', 'p', '}', ' '] } else { seq![] }) + piece(line, a, b) + (if b < utf8_len(line) { seq![' ', '{', 's', 'n', 'i', 'p', '}'] } else { seq![] })
}
/// `out` is `line` with over-long lines trimmed around `col` as documented
pub open spec fn is_trimmed(line: Str, col: int, out: Str) -> bool {
    if utf8_len(line) <= 150 { out == line }
    else { exists|a: int, b: int| #[trigger] trims(line, col, a, b) && out =~= trimmed_at(line, a, b) }
}
pub open spec fn trims(line: Str, col: int, a: int, b: int) -> bool { is_floor(line, win_start(utf8_len(line), col), a) && is_floor(line, win_end(utf8_len(line), col), b) }
/// and this shows 137 to 147 bytes of the line, the column among them
pub proof fn lemma_window(line: Str, col: int, a: int, b: int)
    requires utf8_len(line) > 150, col >= 0, trims(line, col, a, b)
    ensures 137 <= b - a <= 147, a <= (if col <= utf8_len(line) { col } else { utf8_len(line) }) <= b, 0 <= a < b <= utf8_len(line),
        col == 0 ==> a == 0, col >= utf8_len(line) ==> b == utf8_len(line),
        bound_at(line, a) is Some && bound_at(line, b) is Some
{ broadcast use ax::ax_off; let n = utf8_len(line); assert(bound_at(line, byte_off(line, line.len() as int)) == Some(line.len() as int)); }

/// one trimmed line for each of the lines `from..to`
pub open spec fn trimmed_lines(ls: Seq<Str>, from: int, to: int, col: int, r: Seq<String>) -> bool {
    r.len() == to - from && forall|i: int| 0 <= i < r.len() ==> is_trimmed(ls[from + i], col, (#[trigger] r[i])@)
}
pub open spec fn trimmed_all(v: Seq<&str>, n: int, col: int, r: Seq<String>) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> is_trimmed(v[i]@, col, (#[trigger] r[i])@) }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// the context of line `n` (counting from one): the lines directly before and after it
pub open spec fn is_context(src: Str, n: int, col: int, k: int, r: Option<(Vec<String>, String, Vec<String>)>) -> bool {
    let ls = lines_of(src);
    match r {
        None => n < 1 || n > ls.len(),
        Some((pre, mid, post)) => 1 <= n <= ls.len() && trimmed_lines(ls, imax(n - 1 - k, 0), n - 1, col, pre@)
            && is_trimmed(ls[n - 1], col, mid@) && trimmed_lines(ls, n, imin(n + k, ls.len() as int), col, post@),
    }
}

//@item crates/symbolicator-service/src/source_context.rs DEFAULT_CONTEXT_LINES

//@fn crates/symbolicator-service/src/source_context.rs floor_char_boundary
//@sub s . len ( ) ==> s.vp_blen()
//@sub unsafe { ==> {
//@sub new_index . unwrap_unchecked ==> new_index.vp_unwrap_unchecked
//@ret r
//@spec
    ensures is_floor(s@, index as int, r as int),
//@start
    proof { lemma_lead(); ax_bytes(s@); if index < utf8_len(s@) { lemma_floor(s@, index as int); } }
//@loop 0
    invariant vp_n <= vp_r@.len() == index + 1 - from3(index as int), vp_r@.len() <= 4, index < utf8_len(s@),
        forall|o: int| 0 <= o < vp_r@.len() ==> #[trigger] starts_char(vp_r@[o]) == (bound_at(s@, from3(index as int) + o) is Some),
        exists|o: int| 0 <= o < vp_r@.len() && #[trigger] starts_char(vp_r@[o]),
        vp_acc is None ==> (forall|o: int| vp_n <= o < vp_r@.len() ==> !#[trigger] starts_char(vp_r@[o])) && forall|o: int| from3(index as int) + vp_n <= o <= index ==> #[trigger] bound_at(s@, o) is None,
        vp_acc is Some ==> vp_acc->Some_0 == vp_n < vp_r@.len() && bound_at(s@, from3(index as int) + vp_n) is Some && forall|o: int| from3(index as int) + vp_n < o <= index ==> #[trigger] bound_at(s@, o) is None,
        forall|b: u8| #[trigger] starts_char(b) == (#[verifier::truncate] (b as i8) >= -0x40),
    decreases vp_n + (if vp_acc is None { 1int } else { 0 }),
//@body 0
    assert(starts_char(vp_r@[vp_n - 1]) == (bound_at(s@, from3(index as int) + (vp_n - 1)) is Some));
//@end
pub open spec fn from3(i: int) -> int { if i >= 3 { i - 3 } else { 0 } }
pub proof fn lemma_lead()
    ensures forall|b: u8| #[trigger] starts_char(b) == (#[verifier::truncate] (b as i8) >= -0x40)
{ assert forall|b: u8| #[trigger] starts_char(b) == (#[verifier::truncate] (b as i8) >= -0x40) by { assert((b < 128 || b >= 192) == (#[verifier::truncate] (b as i8) >= -0x40i8)) by (bit_vector); } }
/// a character is at most four bytes long, so that the boundary is at most three bytes away
pub proof fn lemma_floor(s: Str, i: int)
    requires 0 <= i < utf8_len(s)
    ensures exists|r: int| i - 3 <= r <= i && 0 <= r && #[trigger] bound_at(s, r) is Some,
        exists|o: int| 0 <= o < i + 1 - from3(i) && #[trigger] starts_char(bytes_of(s).subrange(from3(i), i + 1)[o]),
{
    lemma_floor_at(s, i, s.len() as int);
    ax_bytes(s);
    let r = choose|r: int| i - 3 <= r <= i && 0 <= r && #[trigger] bound_at(s, r) is Some;
    assert(starts_char(bytes_of(s).subrange(from3(i), i + 1)[r - from3(i)]));
}
pub proof fn lemma_floor_at(s: Str, i: int, k: int)
    requires 0 <= i < byte_off(s, k), 0 <= k <= s.len()
    ensures exists|r: int| i - 3 <= r <= i && 0 <= r && #[trigger] bound_at(s, r) is Some
    decreases k
{
    reveal_with_fuel(byte_off, 2);
    if i < byte_off(s, k - 1) { lemma_floor_at(s, i, k - 1); }
    else { ax::ax_off(s, k - 1); assert(bound_at(s, byte_off(s, k - 1)) is Some); }
}

//@fn crates/symbolicator-service/src/source_context.rs trim_context_line
//@sub std :: cmp :: min ==> cmp::min
//@sub line . len ( ) ==> line.vp_blen()
//@ret r
//@spec
    ensures is_trimmed(line@, column as int, r@),
//@start
    let ghost gline = line@;
    proof { reveal_strlit("{snip} "); reveal_strlit(" {snip}"); assert("{snip} "@ =~= seq!['{', 's', 'n', 'i', 'p', '}', ' ']); assert(" {snip}"@ =~= seq![' ', '{', 's', 'n', 'i', 'p', '}']); }
//@before? let mut line
    proof { assert(trims(gline, column as int, start as int, end as int)); }
//@end

//@fn crates/symbolicator-service/src/source_context.rs get_context_lines
//@sub let trim_line = | line : & str | trim_context_line ( line , trim_to_column ) ; ==> let trim_line = |line: &str| -> (r: String) ensures is_trimmed(line@, trim_to_column as int, r@) { trim_context_line(line, trim_to_column) };
//@sub = ( & mut lines ) . take ( line_diff ) . map ( ==> = vp_pre.into_iter().map(
//@sub let pre_context ==> let vp_pre = lines.take_front(line_diff); let pre_context
//@sub = lines . take ( context_lines ) . map ( ==> = vp_post.into_iter().map(
//@sub let post_context ==> let vp_post = lines.take_front(context_lines); let post_context
//@ret r
//@spec
    ensures is_context(source@, lineno as int, trim_to_column as int, (match context_lines { Some(k) => k as int, None => 5 }), r),
//@loop 0 iter=it
    invariant it.seq() == vp_pre@, trimmed_all(vp_pre@, it.index@, trim_to_column as int, vp_acc@),
        forall|l: &str, r: String| #[trigger] trim_line.ensures((l,), r) ==> is_trimmed(l@, trim_to_column as int, r@), forall|l: &str| #[trigger] trim_line.requires((l,)),
//@loop 1 iter=it
    invariant it.seq() == vp_post@, trimmed_all(vp_post@, it.index@, trim_to_column as int, vp_acc@),
        forall|l: &str, r: String| #[trigger] trim_line.ensures((l,), r) ==> is_trimmed(l@, trim_to_column as int, r@), forall|l: &str| #[trigger] trim_line.requires((l,)),
//@end

// ---- the three users: a frame gets exactly that context, and otherwise keeps what it has -------------
pub enum Platform { P } pub enum AddrMode { P } pub enum HexValue { P } pub enum Language { P } pub enum FrameTrust { P }
pub enum CachedFileUri { P } pub enum ResolvedWith { P } pub enum JsModuleErrorKind { P }
//@item crates/symbolicator-native/src/interface.rs RawFrame derive=
//@item crates/symbolicator-js/src/interface.rs JsFrameData derive=
//@item crates/symbolicator-js/src/interface.rs JsFrame derive=

//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::set_source_context
//@ret r
//@spec
    ensures
        r is None ==> *final(frame) == *old(frame) && (old(frame).lineno is None || is_context(source@, old(frame).lineno->Some_0 as int, 0, 5, None)),
        r is Some ==> old(frame).lineno is Some && final(frame).context_line is Some
            && is_context(source@, old(frame).lineno->Some_0 as int, 0, 5, Some((final(frame).pre_context, final(frame).context_line->Some_0, final(frame).post_context)))
            && *final(frame) == (RawFrame { pre_context: final(frame).pre_context, context_line: final(frame).context_line, post_context: final(frame).post_context, ..*old(frame) }),
//@end

//@fn crates/symbolicator-js/src/symbolication.rs apply_source_context
//@ret r
//@spec
    ensures r is Ok,
        *final(frame) == *old(frame) && is_context(source@, old(frame).lineno as int, js_col(*old(frame)), 5, None)
        || final(frame).context_line is Some && is_context(source@, old(frame).lineno as int, js_col(*old(frame)), 5, Some((final(frame).pre_context, final(frame).context_line->Some_0, final(frame).post_context)))
            && *final(frame) == (JsFrame { pre_context: final(frame).pre_context, context_line: final(frame).context_line, post_context: final(frame).post_context, ..*old(frame) }),
//@end
pub open spec fn js_col(f: JsFrame) -> int { match f.colno { Some(c) => c as int, None => 0 } }

//@item crates/symbolicator-proguard/src/interface.rs JvmFrame derive=
/// a session of a source bundle: the source it has for a name, if any
#[verifier::external_body] #[verifier::reject_recursive_types(A)]
pub struct SourceBundleDebugSession<A> { a: A }
pub struct SourceBundleError { pub e: u8 }
#[verifier::external_body] pub struct SourceFileDescriptor { a: u8 }
impl SourceFileDescriptor { pub uninterp spec fn text(&self) -> Option<Str>;
    #[verifier::external_body] pub fn contents(&self) -> (r: Option<&str>) ensures (match r { Some(t) => self.text() == Some(t@), None => self.text() is None }) { unimplemented!() } }
impl<A> SourceBundleDebugSession<A> { pub uninterp spec fn has(&self, name: Str) -> Option<Str>;
    #[verifier::external_body] pub fn source_by_url(&self, name: &str) -> (r: Result<Option<SourceFileDescriptor>, SourceBundleError>)
        ensures self.has(name@) == (match r { Ok(Some(d)) => d.text(), _ => None }) { unimplemented!() } }
pub uninterp spec fn source_name(f: JvmFrame) -> Str;
#[verifier::external_body] pub fn build_source_file_name(frame: &JvmFrame) -> (r: String) ensures r@ == source_name(*frame) { unimplemented!() }
pub open spec fn jvm_context(src: Str, f: JvmFrame, g: JvmFrame) -> bool {
    g.context_line is Some && is_context(src, f.lineno->Some_0 as int, 0, 5, Some((g.pre_context, g.context_line->Some_0, g.post_context)))
        && g == (JvmFrame { pre_context: g.pre_context, context_line: g.context_line, post_context: g.post_context, ..f })
}
/// the source of bundle `i` has no such line (or the bundle no such source)
pub open spec fn no_line<A>(b: SourceBundleDebugSession<A>, f: JvmFrame) -> bool {
    match b.has(source_name(f)) { Some(src) => is_context(src, f.lineno->Some_0 as int, 0, 5, None), None => true }
}
//@fn crates/symbolicator-proguard/src/symbolication.rs ProguardService::apply_source_context as=jvm_apply stub=build_source_file_name while=0
//@sub source_bundles : & [ SourceBundleDebugSession < '_ > ] ==> source_bundles: Vec<&SourceBundleDebugSession<()>>
//@spec
    ensures
        *final(frame) == *old(frame) && (old(frame).lineno is None || old(frame).lineno->Some_0 == 0 || forall|i: int| 0 <= i < source_bundles@.len() ==> no_line(*#[trigger] source_bundles@[i], *old(frame)))
        || old(frame).lineno is Some && exists|i: int| 0 <= i < source_bundles@.len() && #[trigger] source_bundles@[i].has(source_name(*old(frame))) is Some && jvm_context(source_bundles@[i].has(source_name(*old(frame)))->Some_0, *old(frame), *final(frame))
            && forall|j: int| 0 <= j < i ==> no_line(*#[trigger] source_bundles@[j], *old(frame)),
//@loop 0
    invariant_except_break *frame == *old(frame), forall|i: int| 0 <= i < vp_i0 ==> no_line(*#[trigger] source_bundles@[i], *old(frame)),
    invariant vp_i0 <= vp_v0@.len(), vp_v0@ == source_bundles@, old(frame).lineno == Some(lineno), lineno > 0, source_file_name@ == source_name(*old(frame)),
    ensures *frame == *old(frame) && (forall|i: int| 0 <= i < source_bundles@.len() ==> no_line(*#[trigger] source_bundles@[i], *old(frame)))
        || exists|i: int| 0 <= i < source_bundles@.len() && #[trigger] source_bundles@[i].has(source_name(*old(frame))) is Some && jvm_context(source_bundles@[i].has(source_name(*old(frame)))->Some_0, *old(frame), *frame)
            && forall|j: int| 0 <= j < i ==> no_line(*#[trigger] source_bundles@[j], *old(frame)),
    decreases vp_v0@.len() - vp_i0,
//@end
}
fn main() {}
