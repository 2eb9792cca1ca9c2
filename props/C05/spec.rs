use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
/// Arc<str>
pub struct VpArc { s: String }
impl VpArc { pub uninterp spec fn view(&self) -> Str; }
impl VpDisp for VpArc { open spec fn disp(&self) -> Str { self.view() } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
pub trait VpInto { fn vp_into(&self) -> VpArc; }
impl VpInto for str { #[verifier::external_body] fn vp_into(&self) -> (r: VpArc) ensures r.view() == self@ { unimplemented!() } }
impl VpInto for String { #[verifier::external_body] fn vp_into(&self) -> (r: VpArc) ensures r.view() == self@ { unimplemented!() } }
/// BTreeSet<Arc<str>>
pub struct VpSet { s: Vec<VpArc> }
impl VpSet {
    pub uninterp spec fn view(&self) -> Set<Str>;
    #[verifier::external_body]
    pub fn insert(&mut self, x: VpArc) -> (r: bool) ensures final(self).view() =~= old(self).view().insert(x.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view() =~= Set::<Str>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_contains(&self, x: &str) -> (r: bool) ensures r == self.view().contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: VpSet) ensures final(self).view() =~= old(self).view().union(o.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut VpSet) ensures final(self).view() =~= old(self).view().union(old(o).view()), final(o).view() =~= Set::<Str>::empty() { unimplemented!() }
    /// iteration: every element once
    #[verifier::external_body]
    pub fn vp_elems(&self) -> (r: Vec<VpArc>) ensures aview(r@).to_set() =~= self.view(), aview(r@).no_duplicates(), r@.len() == 0 <==> self.view() =~= Set::<Str>::empty() { unimplemented!() }
}
pub open spec fn aview(v: Seq<VpArc>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k].view()) }
#[derive(Debug)]
pub struct IoError {}
#[derive(Debug)]
pub struct Utf8Error {}
pub struct VpKind {}
impl IoError {
    #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> IoError { unimplemented!() }
}
pub enum ErrorKind { InvalidData, Other }
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Option<Str>;
pub uninterp spec fn utf8_enc(s: Str) -> Seq<u8>;
#[verifier::external_body]
pub proof fn ax_utf8_round(s: Str) ensures utf8_dec(utf8_enc(s)) == Some(s) {}
#[verifier::external_body]
pub fn vp_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r.is_ok() == utf8_dec(b@).is_some(), r.is_ok() ==> r.unwrap()@ == utf8_dec(b@).unwrap() { unimplemented!() }
/// a BufRead: the sequence of results its lines() yields (each Ok line is free of '\n')
pub struct VpReader { x: u8 }
pub enum LineRes { L(Str), E }
impl VpReader {
    pub uninterp spec fn lines(&self) -> Seq<LineRes>;
    #[verifier::external_body]
    pub fn vp_lines(self) -> (r: Vec<Result<String, IoError>>)
        ensures r@.len() == self.lines().len(), forall|k: int| 0 <= k < r@.len() ==> (match #[trigger] r@[k] { Ok(s) => self.lines()[k] == LineRes::L(s@) && !has_char(s@, '\n'), Err(_) => self.lines()[k] == LineRes::E }) { unimplemented!() }
}
/// a Write: what has been written so far; a failed write leaves it unspecified
pub struct VpSink { x: u8 }
impl VpSink {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body]
    pub fn vp_write_fmt(&mut self, s: &String) -> (r: Result<(), IoError>) ensures r.is_ok() ==> final(self).view() =~= old(self).view() + s@ { unimplemented!() }
}
//@item crates/symbolicator-sources/src/index.rs SymstoreIndex
//@isub BTreeSet<Arc<str>> ==> VpSet
//@item crates/symbolicator-sources/src/index.rs SourceIndex

/// `"name\id",...`  ->  name/id/name
#[verifier::opaque]
pub open spec fn entry_of(line: Str) -> Option<Str> {
    let f = split_c(line, '"');
    if f.len() < 2 || !has_char(f[1], '\\') { None }
    else {
        let e = f[1]; let i = choose|i: int| is_first(e, '\\', i);
        let name = e.subrange(0, i); let id = e.subrange(i + 1, e.len() as int);
        Some(name + "/"@ + id + "/"@ + name)
    }
}
/// what a log means: the entries of its lines, nothing else
pub open spec fn entries_of(ls: Seq<LineRes>) -> Set<Str>
    decreases ls.len()
{
    if ls.len() == 0 { Set::empty() } else { match ls.last() {
        LineRes::L(l) => match entry_of(l) { Some(e) => entries_of(ls.drop_last()).insert(e), None => entries_of(ls.drop_last()) },
        LineRes::E => entries_of(ls.drop_last()) } }
}
pub open spec fn all_ok(ls: Seq<LineRes>) -> bool { forall|k: int| 0 <= k < ls.len() ==> #[trigger] ls[k] != LineRes::E }
/// every entry is a single line
pub open spec fn inv(s: Set<Str>) -> bool { forall|e: Str| #[trigger] s.contains(e) ==> !has_char(e, '\n') && e.len() > 0 }
/// the entries in a text: its lines, but for empty ones
pub open spec fn loaded(t: Str) -> Set<Str> { set_of(split_term(t, '\n')).remove(Seq::empty()) }
/// what may be written: the entries, or an empty line if there are none (the caches take an empty file for a missing one)
pub open spec fn written(a: Str, b: Str, n: nat, t: Str) -> bool { (n > 0 && b =~= a + t) || (n == 0 && b =~= a + "\n"@) }
/// the text form: every entry followed by a line feed, in some order, each once
pub open spec fn text_of(es: Seq<Str>) -> Str decreases es.len() { if es.len() == 0 { Seq::empty() } else { text_of(es.drop_last()) + (es.last() + "\n"@) } }

pub open spec fn set_of(s: Seq<Str>) -> Set<Str> decreases s.len() { if s.len() == 0 { Set::empty() } else { set_of(s.drop_last()).insert(s.last()) } }
pub proof fn lemma_set_of(s: Seq<Str>)
    ensures set_of(s) =~= s.to_set(), forall|e: Str| set_of(s).contains(e) <==> exists|k: int| 0 <= k < s.len() && s[k] == e
    decreases s.len()
{
    if s.len() > 0 {
        lemma_set_of(s.drop_last());
        assert forall|e: Str| set_of(s).contains(e) <==> exists|k: int| 0 <= k < s.len() && s[k] == e by {
            if exists|k: int| 0 <= k < s.len() && s[k] == e { let k = choose|k: int| 0 <= k < s.len() && s[k] == e; if k < s.len() - 1 { assert(s.drop_last()[k] == e); } }
            if set_of(s.drop_last()).contains(e) { let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == e; assert(s[k] == e); }
            if e == s.last() { assert(s[s.len() - 1] == e); }
        }
        assert forall|e: Str| s.to_set().contains(e) <==> set_of(s).contains(e) by {}
    }
}
pub proof fn lemma_split_inv(t: Str)
    ensures inv(loaded(t))
{
    lemma_split_free(t, '\n'); lemma_split_nonempty(t, '\n');
    let p = split_term(t, '\n');
    lemma_set_of(p);
    assert forall|e: Str| #[trigger] loaded(t).contains(e) implies !has_char(e, '\n') && e.len() > 0 by { assert(set_of(p).contains(e)); if e.len() == 0 { assert(e =~= Seq::<char>::empty()); }
        let k = choose|k: int| 0 <= k < p.len() && p[k] == e; assert(p[k] == split_c(t, '\n')[k]);
    }
}
pub proof fn lemma_first_unique(s: Str, c: char, i: int)
    requires is_first(s, c, i)
    ensures has_char(s, c), (choose|j: int| is_first(s, c, j)) == i
{ let j = choose|j: int| is_first(s, c, j); if j < i { assert(s[j] != c); } else if i < j { assert(s[i] != c); } }
pub proof fn lemma_entry_line(l: Str)
    requires !has_char(l, '\n')
    ensures (match entry_of(l) { Some(e) => !has_char(e, '\n') && e.len() > 0, None => true })
{
    reveal(entry_of);
    if entry_of(l).is_some() {
        let f = split_c(l, '"');
        lemma_split_sub(l, '"', 1);
        let e = f[1];
        lemma_first(e, '\\');
        let i = choose|i: int| is_first(e, '\\', i);
        let name = e.subrange(0, i); let id = e.subrange(i + 1, e.len() as int);
        let r = name + "/"@ + id + "/"@ + name;
        reveal_strlit("/");
        assert forall|k: int| 0 <= k < r.len() implies r[k] != '\n' by {
            if k < i { assert(r[k] == e[k]); } else if k == i {} else if k < i + 1 + id.len() { assert(r[k] == id[k - i - 1]); assert(r[k] == e[k]); }
            else if k == i + 1 + id.len() {} else { assert(r[k] == e[k - i - 2 - id.len()]); }
        }
    }
}
/// every character of a piece is a character of the text
pub proof fn lemma_split_sub(s: Str, c: char, k: int)
    requires 0 <= k < split_c(s, c).len()
    ensures forall|d: char| has_char(split_c(s, c)[k], d) ==> has_char(s, d)
    decreases s.len()
{
    if has_char(s, c) {
        lemma_first(s, c);
        let i = choose|i: int| is_first(s, c, i);
        let r = s.subrange(i + 1, s.len() as int);
        if k > 0 { lemma_split_sub(r, c, k - 1); assert(split_c(s, c)[k] == split_c(r, c)[k - 1]); }
        assert forall|d: char| has_char(split_c(s, c)[k], d) implies has_char(s, d) by {
            if k == 0 { let p = s.subrange(0, i); let j = choose|j: int| 0 <= j < p.len() && p[j] == d; assert(s[j] == d); }
            else { assert(has_char(split_c(r, c)[k - 1], d)); assert(has_char(r, d)); let j = choose|j: int| 0 <= j < r.len() && r[j] == d; assert(s[i + 1 + j] == d); }
        }
    }
}
pub proof fn lemma_split_text(es: Seq<Str>, tail: Str)
    requires forall|k: int| 0 <= k < es.len() ==> !has_char(#[trigger] es[k], '\n')
    ensures split_c(text_of(es) + tail, '\n') =~= es + split_c(tail, '\n')
    decreases es.len()
{
    reveal_strlit("\n");
    if es.len() == 0 { assert(text_of(es) + tail =~= tail); }
    else {
        let d = es.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies !has_char(#[trigger] d[k], '\n') by { assert(d[k] == es[k]); }
        lemma_split_text(d, es.last() + "\n"@ + tail);
        assert(!has_char(es[es.len() - 1], '\n'));
        lemma_split_cons(es.last(), '\n', tail);
        assert("\n"@ =~= seq!['\n']);
        assert(text_of(es) + tail =~= text_of(d) + (es.last() + "\n"@ + tail));
        assert(es =~= d + seq![es.last()]);
    }
}
/// writing an index and loading it again gives the same entries
pub proof fn theorem_round_trip(entries: Set<Str>, es: Seq<Str>, text: Str, bytes: Seq<u8>)
    requires inv(entries), es.to_set() =~= entries, written(Seq::empty(), text, es.len(), text_of(es)), bytes == utf8_enc(text)
    ensures utf8_dec(bytes).is_some(), loaded(utf8_dec(bytes).unwrap()) =~= entries
{
    ax_utf8_round(text);
    assert forall|k: int| 0 <= k < es.len() implies !has_char(#[trigger] es[k], '\n') by { assert(es.to_set().contains(es[k])); }
    lemma_split_text(es, Seq::empty());
    assert(text_of(es) + Seq::<char>::empty() =~= text_of(es));
    assert(split_c(Seq::<char>::empty(), '\n') =~= seq![Seq::<char>::empty()]);
    assert(split_term(text_of(es), '\n') =~= es); lemma_set_of(es);
    reveal_strlit("\n");
    if es.len() == 0 {
        assert(entries =~= Set::<Str>::empty());
        let one = seq![Seq::<char>::empty()]; lemma_split_text(one, Seq::empty()); assert(one.drop_last() =~= Seq::<Str>::empty());
        assert(text_of(one) + Seq::<char>::empty() =~= text); assert(split_term(text, '\n') =~= one); lemma_set_of(one);
        assert(set_of(one) =~= Set::<Str>::empty().insert(Seq::empty())) by { assert(set_of(one.drop_last()) =~= Set::<Str>::empty()); }
    } else { assert(text =~= text_of(es)); }
}
impl SymstoreIndex {
    #[verifier::external_body]
    pub fn default() -> (r: SymstoreIndex) ensures r.files.view() =~= Set::<Str>::empty() { unimplemented!() }
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::parse_line ren=split,into
//@sub? Arc<str> ==> VpArc
//@spec
    ensures r.is_some() == entry_of(line@).is_some(), r.is_some() ==> r.unwrap().view() =~= entry_of(line@).unwrap(),
//@start
    proof { reveal(entry_of); lemma_split_nonempty(line@, '"'); lemma_split_free(line@, '"');
        assert forall|e: Str, i: int| #[trigger] is_first(e, '\\', i) implies has_char(e, '\\') && (choose|j: int| is_first(e, '\\', j)) == i by { lemma_first_unique(e, '\\', i); } }
//@end
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::load ren=split_terminator,into
//@sub? io::Result<Self> ==> Result<SymstoreIndex, IoError>
//@sub? std::str::from_utf8( ==> vp_from_utf8(
//@sub? str::from_utf8( ==> vp_from_utf8(
//@sub? io::Error:: ==> IoError::
//@sub? io::ErrorKind:: ==> ErrorKind::
//@sub? Self::default() ==> SymstoreIndex::default()
//@spec
    ensures r.is_ok() == utf8_dec(data@).is_some(),
        r.is_ok() ==> r.unwrap().files.view() =~= loaded(utf8_dec(data@).unwrap()),
        r.is_ok() ==> inv(r.unwrap().files.view()),
//@loop 0 iter=it
    invariant rview(it.seq()) =~= split_term(data@, '\n'), out.files.view() =~= set_of(rview(it.seq()).take(it.index@ as int)).remove(Seq::empty()),
       rview(it.seq()).take(it.seq().len() as int) =~= rview(it.seq()),
       forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] rview(it.seq()).take(k + 1).drop_last() =~= rview(it.seq()).take(k) && rview(it.seq()).take(k + 1).last() == it.seq()[k]@,
       forall|k: int| 0 <= k < it.seq().len() && (#[trigger] it.seq()[k])@.len() == 0 ==> it.seq()[k]@ =~= Seq::<char>::empty(),
//@start
    proof { if let Some(t) = utf8_dec(data@) { lemma_split_inv(t); } }
//@end
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::parse_from_reader ren=lines
//@sub? <R: BufRead> ==>
//@sub? reader: R ==> reader: VpReader
//@sub? io::Result<Self> ==> Result<SymstoreIndex, IoError>
//@sub? Self::default() ==> SymstoreIndex::default()
//@spec
    ensures r.is_ok() == all_ok(reader.lines()),
        r.is_ok() ==> r.unwrap().files.view() =~= entries_of(reader.lines()),
        r.is_ok() ==> inv(r.unwrap().files.view()),
//@loop 0 iter=it
    invariant it.seq().len() == reader.lines().len(),
        forall|k: int| 0 <= k < it.seq().len() ==> (match #[trigger] it.seq()[k] { Ok(s) => reader.lines()[k] == LineRes::L(s@) && !has_char(s@, '\n'), Err(_) => reader.lines()[k] == LineRes::E }),
        out.files.view() =~= entries_of(reader.lines().take(it.index@ as int)), inv(out.files.view()),
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] reader.lines()[k] != LineRes::E,
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] reader.lines().take(k + 1).drop_last() =~= reader.lines().take(k),
        forall|l: Str| #![trigger entry_of(l)] !has_char(l, '\n') && entry_of(l).is_some() ==> !has_char(entry_of(l).unwrap(), '\n') && entry_of(l).unwrap().len() > 0,
//@start
    proof { assert(reader.lines().take(reader.lines().len() as int) =~= reader.lines());
        assert forall|l: Str| #![trigger entry_of(l)] !has_char(l, '\n') && entry_of(l).is_some() implies !has_char(entry_of(l).unwrap(), '\n') && entry_of(l).unwrap().len() > 0 by { lemma_entry_line(l); } }
//@end
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::contains as=vp_contains
//@spec
    ensures r == self.files.view().contains(path@),
//@end
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::write
//@sub? mut destination: impl Write ==> destination: &mut VpSink
//@sub? io::Result<()> ==> Result<(), IoError>
//@sub? in &self.files ==> in self.files.vp_elems()
//@spec
    ensures r.is_ok() ==> exists|es: Seq<Str>| es.to_set() =~= self.files.view() && es.no_duplicates() && written(old(destination).view(), final(destination).view(), es.len(), #[trigger] text_of(es)),
//@loop 0 iter=it
    invariant aview(it.seq()).to_set() =~= self.files.view(), aview(it.seq()).no_duplicates(),
        written(old(destination).view(), destination.view(), aview(it.seq()).len(), text_of(aview(it.seq()).take(it.index@ as int))),
        aview(it.seq()).take(it.seq().len() as int) =~= aview(it.seq()),
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] aview(it.seq()).take(k + 1).drop_last() =~= aview(it.seq()).take(k) && aview(it.seq()).take(k + 1).last() == it.seq()[k].view(),
//@end
//@fn crates/symbolicator-sources/src/index.rs SymstoreIndex::append
//@sub? other: Self ==> other: SymstoreIndex
//@spec
    ensures final(self).files.view() =~= old(self).files.view().union(other.files.view()),
        inv(old(self).files.view()) && inv(other.files.view()) ==> inv(final(self).files.view()),
//@end
}
impl SourceIndex {
//@fn crates/symbolicator-sources/src/index.rs SourceIndex::contains
//@spec
    ensures r == (match *self { SourceIndex::Symstore(x) => x.files.view().contains(path@) }),
//@end
}
// ---- the index of a store: the union of its upload logs -------------------------------------------------------
pub trait VpPad { spec fn digits(&self) -> Str; fn vp_pad0(&self, o: &mut String, w: usize) ensures final(o)@ =~= old(o)@ + pad0(self.digits(), w as nat); }
impl VpPad for u32 { uninterp spec fn digits(&self) -> Str; #[verifier::external_body] fn vp_pad0(&self, o: &mut String, w: usize) { unimplemented!() } }
pub open spec fn zeros(n: nat) -> Str { Seq::new(n, |i: int| '0') }
pub open spec fn pad0(s: Str, w: nat) -> Str { if s.len() >= w { s } else { zeros((w - s.len()) as nat) + s } }
pub enum CacheError { NotFound, Malformed(String), DownloadError(String), InternalError }
pub struct Scope { s: u8 }
impl Scope { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a source: what its files hold (external_body: the downloader)
#[verifier::external_body] pub struct IndexSourceConfig { s: String }
#[verifier::external_body] pub struct SourceLocation { s: String }
impl SourceLocation { pub uninterp spec fn view(&self) -> Str; #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r.view() == s@ { unimplemented!() } #[verifier::external_body] pub fn vp_new(s: &str) -> (r: Self) ensures r.view() == s@ { unimplemented!() } }
#[verifier::external_body] pub struct RemoteFile { s: String }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum DirectoryLayoutType { Native, Symstore, SymstoreIndex2, Ssqp, Debuginfod, Unified, SlashSymbols }
#[verifier::external_body] pub struct SourceConfig { s: String }
impl IndexSourceConfig {
    /// the lines of the file at that place
    pub uninterp spec fn lines_at(&self, loc: Str) -> Seq<LineRes>;
    pub uninterp spec fn bytes_at(&self, loc: Str) -> Seq<u8>;
    pub uninterp spec fn indexed(&self) -> bool; pub uninterp spec fn layout(&self) -> DirectoryLayoutType;
    pub uninterp spec fn of(c: SourceConfig) -> Option<IndexSourceConfig>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn has_index(&self) -> (r: bool) ensures r == self.indexed() { unimplemented!() }
    #[verifier::external_body] pub fn layout_ty(&self) -> (r: DirectoryLayoutType) ensures r == self.layout() { unimplemented!() }
    #[verifier::external_body] pub fn maybe_from(c: &SourceConfig) -> (r: Option<Self>) ensures r == Self::of(*c) { unimplemented!() }
    #[verifier::external_body] pub fn remote_file(&self, loc: SourceLocation) -> (r: RemoteFile) ensures names(r, *self, loc.view()) { unimplemented!() }
}
pub uninterp spec fn names(f: RemoteFile, s: IndexSourceConfig, loc: Str) -> bool;
#[verifier::external_body] pub struct NamedTempFile { s: String }
#[verifier::external_body] pub struct VpPath { s: String }
#[verifier::external_body] pub struct DownloadService { s: String }
pub uninterp spec fn delivered(p: VpPath, f: RemoteFile) -> bool;
impl VpPath { #[verifier::external_body] pub fn to_path_buf(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NamedTempFile {
    pub uninterp spec fn at(&self) -> VpPath;
    #[verifier::external_body] pub fn vp_new() -> (r: Result<Self, CacheError>) { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: VpPath) ensures r == self.at() { unimplemented!() }
}
impl DownloadService {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn download(&self, f: RemoteFile, p: VpPath) -> (r: Result<(), CacheError>) ensures r is Ok ==> delivered(p, f) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_reader(t: NamedTempFile) -> (r: VpReader) ensures forall|f: RemoteFile, s: IndexSourceConfig, l: Str| #[trigger] delivered(t.at(), f) && #[trigger] names(f, s, l) ==> r.lines() == s.lines_at(l) { unimplemented!() }
#[verifier::external_body] pub struct ByteView { s: Vec<u8> }
impl ByteView { pub uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] pub fn vp_as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() } #[verifier::external_body] pub fn hint(&self, h: u8) -> u8 { unimplemented!() } }
#[verifier::external_body] pub fn vp_map_file(t: NamedTempFile) -> (r: Result<ByteView, CacheError>) ensures match r { Ok(b) => forall|f: RemoteFile, s: IndexSourceConfig, l: Str| #[trigger] delivered(t.at(), f) && #[trigger] names(f, s, l) ==> b.bytes() == s.bytes_at(l), Err(_) => true } { unimplemented!() }
pub trait VpQ<T> { spec fn okv(self) -> Option<T>; fn vp_q(self) -> (r: Result<T, CacheError>) ensures match r { Ok(v) => self.okv() == Some(v), Err(_) => self.okv() is None }; }
impl<T> VpQ<T> for Result<T, IoError> { open spec fn okv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn vp_q(self) -> (r: Result<T, CacheError>) { unimplemented!() } }
/// the name of the n-th log
pub open spec fn log_name(n: u32) -> Str { "000Admin/"@ + pad0(n.digits(), 10) }
/// the entries of the n-th log of a store
pub open spec fn logged(s: IndexSourceConfig, n: u32) -> Set<Str> { entries_of(s.lines_at(log_name(n))) }
pub open spec fn all_logged(s: IndexSourceConfig, n: nat) -> Set<Str> decreases n { if n == 0 { Set::empty() } else { all_logged(s, (n - 1) as nat).union(logged(s, n as u32)) } }
/// the entries of an index in a file
pub open spec fn stored(a: Str, b: Str, s: Set<Str>) -> bool { exists|es: Seq<Str>| es.to_set() =~= s && es.no_duplicates() && written(a, b, es.len(), #[trigger] text_of(es)) }
pub struct FetchSymstoreIndexSegment { pub segment_id: u32, pub source: IndexSourceConfig, pub downloader: DownloadService }
pub struct FetchSymstoreIndex { pub scope: Scope, pub last_id: u32, pub segment_cache: SegmentCacher, pub source: IndexSourceConfig, pub downloader: DownloadService }
#[verifier::external_body] pub struct CacheKey { s: u8 }
#[verifier::external_body] pub struct CacheKeyBuilder { s: u8 }
/// C09: keys with different texts are different; the text starts with the scope
pub uninterp spec fn scope_head(s: Scope) -> Str;
impl CacheKey { pub uninterp spec fn text(&self) -> Str; #[verifier::external_body] pub fn scoped_builder(s: &Scope) -> (r: CacheKeyBuilder) ensures r.text() == scope_head(*s) { unimplemented!() } }
impl CacheKeyBuilder { pub uninterp spec fn text(&self) -> Str; #[verifier::external_body] pub fn build(self) -> (r: CacheKey) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn vp_write_fmt(&mut self, s: &String) -> (r: Result<(), VpFmtErr>) ensures r is Ok, final(self).text() == old(self).text() + s@ { unimplemented!() } }
#[derive(Debug)] pub struct VpFmtErr {}
#[verifier::external_body] pub struct SourceId { s: u8 }
impl SourceId { pub uninterp spec fn t(&self) -> Str; }
impl VpDisp for SourceId { open spec fn disp(&self) -> Str { self.t() } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl IndexSourceConfig { pub uninterp spec fn s_id(&self) -> Str; #[verifier::external_body] pub fn id(&self) -> (r: &SourceId) ensures r.t() == self.s_id() { unimplemented!() } }
/// what the keys name: the scope, the source, and the number of the log or of the last one
pub open spec fn segment_tail(id: Str, n: u32) -> Str { "type: symstore_segment\n"@ + "source_id: "@ + id + "\n"@ + "segment: "@ + dec(n as int) + "\n"@ }
pub open spec fn index_key(s: Scope, id: Str, n: u32) -> Str { scope_head(s) + "type: symstore\n"@ + "source_id: "@ + id + "\n"@ + "last_id: "@ + dec(n as int) + "\n"@ }
#[verifier::external_body] pub struct Entry { s: u8 }
impl Entry { pub uninterp spec fn of(&self) -> Result<SymstoreIndex, CacheError>; #[verifier::external_body] pub fn into_contents(self) -> (r: Result<SymstoreIndex, CacheError>) ensures r == self.of() { unimplemented!() } }
/// a Cacher answers with what the computation of an equal request stored and loaded (download_index_segment, download_full_index and load below; theorem_round_trip)
#[verifier::external_body] pub struct SegmentCacher { s: u8 }
impl SegmentCacher { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn compute_memoized(&self, q: FetchSymstoreIndexSegment, k: CacheKey) -> (r: Entry) requires exists|s: Scope| k.text() =~= #[trigger] scope_head(s) + segment_tail(q.source.s_id(), q.segment_id) ensures r.of() matches Ok(x) ==> x.files.view() =~= logged(q.source, q.segment_id) && inv(x.files.view()) { unimplemented!() } }
#[verifier::external_body] pub struct IndexCacher { s: u8 }
impl IndexCacher { #[verifier::external_body] pub fn compute_memoized(&self, q: FetchSymstoreIndex, k: CacheKey) -> (r: Entry) requires k.text() =~= index_key(q.scope, q.source.s_id(), q.last_id) ensures r.of() matches Ok(x) ==> x.files.view() =~= all_logged(q.source, q.last_id as nat) { unimplemented!() } }
#[verifier::external_body] pub fn vp_upto(a: u32, b: u32) -> (r: Vec<u32>) ensures r@.len() == (if b >= a { b - a + 1 } else { 0int }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i { unimplemented!() }
#[verifier::external_body] pub fn vp_until(a: u32, b: u32) -> (r: Vec<u32>) ensures r@.len() == (if b >= a { b - a } else { 0int }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i { unimplemented!() }
//@fn crates/symbolicator-service/src/download/index.rs download_index_segment async stub=id,new,remote_file
//@sub? downloader: Arc<DownloadService> ==> downloader: DownloadService
//@sub? file: &mut File ==> file: &mut VpSink
//@sub? CacheContents ==> Result<(), CacheError>
//@sub? NamedTempFile :: new ( ) ==> NamedTempFile :: vp_new ( )
//@sub? BufReader :: new ( ==> vp_reader (
//@sub? parse_from_reader ( buf ) ==> parse_from_reader ( buf ) . vp_q ( )
//@sub? write ( file ) ==> write ( file ) . vp_q ( )
//@ret r
//@spec
    ensures r is Ok ==> stored(old(file).view(), final(file).view(), logged(source, segment))
//@start
    proof { reveal_strlit("000Admin/"); assert(Seq::<char>::empty() + "000Admin/"@ =~= "000Admin/"@); }
//@end
//@fn crates/symbolicator-service/src/download/index.rs download_full_index async stub=id
//@sub? cache: Arc<Cacher<FetchSymstoreIndexSegment>> ==> cache: SegmentCacher
//@sub? downloader: Arc<DownloadService> ==> downloader: DownloadService
//@sub? file: &mut File ==> file: &mut VpSink
//@sub? CacheContents ==> Result<(), CacheError>
//@sub? 1 ..= last_id ==> vp_upto ( 1 , last_id )
//@sub? 1 .. last_id ==> vp_until ( 1 , last_id )
//@sub? 0 ..= last_id ==> vp_upto ( 0 , last_id )
//@sub? 0 .. last_id ==> vp_until ( 0 , last_id )
//@sub? write ( file ) ==> write ( file ) . vp_q ( )
//@ret r
//@spec
    ensures r is Ok ==> stored(old(file).view(), final(file).view(), all_logged(source, last_id as nat))
//@loop 0 iter=it
    invariant it.seq().len() == last_id, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == 1 + k, *file == *old(file),
        index.files.view() =~= all_logged(source, it.index@ as nat), inv(index.files.view()),
//@before? cache_key . build
    assert(cache_key.text() =~= scope_head(scope) + segment_tail(source.s_id(), i));
//@end
pub struct SourceIndexService { pub symstore_cache: IndexCacher, pub symstore_segment_cache: SegmentCacher, pub downloader: DownloadService }
/// a last id this source has shown, now or before
pub uninterp spec fn shown(s: IndexSourceConfig, n: u32) -> bool;
impl SourceIndexService {
    #[verifier::external_body] pub fn fetch_symstore_last_id_memoized(&self, scope: Scope, s: &IndexSourceConfig) -> (r: Result<u32, CacheError>) ensures r matches Ok(n) ==> shown(*s, n) { unimplemented!() }
//@fn crates/symbolicator-service/src/download/index.rs SourceIndexService::fetch_symstore_index async stub=fetch_symstore_last_id_memoized,id
//@sub? CacheContents < SymstoreIndex > ==> Result<SymstoreIndex, CacheError>
//@ret r
//@spec
    ensures r matches Ok(x) ==> full(x, source)
//@before? cache_key . build
    assert(cache_key.text() =~= index_key(scope, source.s_id(), last_id));
//@end
//@fn crates/symbolicator-service/src/download/index.rs SourceIndexService::fetch_index async stub=has_index,layout_ty,maybe_from
//@sub? symbolicator_sources :: DirectoryLayoutType ==> DirectoryLayoutType
//@sub? . unwrap_or_default ( ) ==> . vp_or_none ( )
//@sub? symstore_index . into ( ) ==> SourceIndex :: Symstore ( symstore_index )
//@ret r
//@spec
    ensures match r { Some(SourceIndex::Symstore(x)) => x.files.view() =~= Set::<Str>::empty() || full(x, IndexSourceConfig::of(*source)->Some_0),
        None => match IndexSourceConfig::of(*source) { Some(s) => !s.indexed() || s.layout() != DirectoryLayoutType::Symstore, None => true } }
//@end
}
pub open spec fn full(x: SymstoreIndex, s: IndexSourceConfig) -> bool { exists|n: u32| #[trigger] shown(s, n) && x.files.view() =~= all_logged(s, n as nat) }
pub trait VpOrNone { fn vp_or_none(self) -> SymstoreIndex; }
impl VpOrNone for Result<SymstoreIndex, CacheError> { fn vp_or_none(self) -> (r: SymstoreIndex) ensures match self { Ok(x) => r == x, Err(_) => r.files.view() =~= Set::<Str>::empty() } { match self { Ok(x) => x, Err(_) => SymstoreIndex::default() } } }
}
fn main() {}
