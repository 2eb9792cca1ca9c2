use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../anyhow.rs

// ---- wasmbin (dependency): sections are opaque, a module is its section list ---------------------
pub struct Url { u: u8 }
impl Url { pub uninterp spec fn text(&self) -> Str; }
pub struct RawName { r: u8 }
pub struct RawCustomSection { r: u8 }
#[derive(Debug)]
pub struct DecodeError { r: u8 }
pub enum CustomSection { Name(RawName), BuildId(Vec<u8>), ExternalDebugInfo(Url), SourceMappingUrl(RawName), Other(RawCustomSection) }
pub struct Section { s: u8 }
pub struct Blob { s: u8 }
impl CustomSection {
    pub uninterp spec fn cname(&self) -> Str;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.cname() { unimplemented!() }
    #[verifier::external_body] pub fn vp_into(self) -> (r: Section) ensures custom(r) == Some(self) { unimplemented!() }
}
pub uninterp spec fn blob_of(s: Section) -> Option<Blob>;
pub uninterp spec fn contents_of(b: Blob) -> Option<CustomSection>;
/// the custom section a section holds, if it is one and parses
pub open spec fn custom(s: Section) -> Option<CustomSection> { match blob_of(s) { Some(b) => contents_of(b), None => None } }
impl Section { #[verifier::external_body] pub fn try_as(&self) -> (r: Option<&Blob>) ensures r.is_some() == blob_of(*self).is_some(), r.is_some() ==> *r.unwrap() == blob_of(*self).unwrap() { unimplemented!() } }
impl Blob { #[verifier::external_body] pub fn try_contents(&self) -> (r: Result<&CustomSection, DecodeError>) ensures r.is_ok() == contents_of(*self).is_some(), r.is_ok() ==> *r.unwrap() == contents_of(*self).unwrap() { unimplemented!() } }
pub struct Module { pub sections: Vec<Section> }

// ---- files and the command line (assumed) ---------------------------------------------------------
#[derive(Structural, PartialEq, Eq)]
pub struct PathBuf { p: u8 }
pub struct OsStr { p: u8 }
impl PathBuf { pub uninterp spec fn fname(&self) -> Option<OsStr>; #[verifier::external_body] pub fn vp_file_name(&self) -> (r: Option<&OsStr>) ensures r.is_some() == self.fname().is_some(), r.is_some() ==> *r.unwrap() == self.fname().unwrap() { unimplemented!() } }
impl OsStr { pub uninterp spec fn utf8(&self) -> Option<Str>; #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r.is_some() == self.utf8().is_some(), r.is_some() ==> r.unwrap()@ == self.utf8().unwrap() { unimplemented!() } }
#[derive(Debug)]
pub struct IoErr { e: u8 }
impl vstd::std_specs::convert::FromSpecImpl<IoErr> for VpErr { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: IoErr) -> VpErr; }
impl core::convert::From<IoErr> for VpErr { #[verifier::external_body] fn from(e: IoErr) -> VpErr { unimplemented!() } }
pub struct File { p: u8 }
impl File {
    pub uninterp spec fn path(&self) -> PathBuf;
    #[verifier::external_body] pub fn open(p: &PathBuf) -> (r: Result<File, IoErr>) ensures r.is_ok() ==> r->Ok_0.path() == *p { unimplemented!() }
    #[verifier::external_body] pub fn create(p: &PathBuf) -> (r: Result<File, IoErr>) ensures r.is_ok() ==> r->Ok_0.path() == *p { unimplemented!() }
}
pub struct BufReader {} pub struct BufWriter {}
impl BufReader { pub fn new(f: File) -> (r: File) ensures r == f { f } }
impl BufWriter { pub fn new(f: File) -> (r: File) ensures r == f { f } }
/// modules written, in order: (file, sections)
pub struct Fs { pub out: Ghost<Seq<(PathBuf, Seq<Section>)>> }
pub uninterp spec fn stored(p: PathBuf) -> Seq<Section>;
impl Module { #[verifier::external_body] pub fn decode_from(f: File) -> (r: Result<Module, IoErr>) ensures r.is_ok() ==> r->Ok_0.sections@ == stored(f.path()) { unimplemented!() } }
impl Fs { #[verifier::external_body] pub fn encode_into(&mut self, m: &Module, f: File) -> (r: Result<(), IoErr>) ensures r.is_ok() ==> final(self).out@ == old(self).out@.push((f.path(), m.sections@)), r.is_err() ==> final(self).out == old(self).out { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct Uuid { u: u8 }
impl Uuid { pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body] pub fn vp_as_bytes(&self) -> (r: [u8; 16]) ensures r@ == self.bytes() { unimplemented!() } }
pub trait ToVec { spec fn bv(&self) -> Seq<u8>; fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bv(); }
impl ToVec for [u8; 16] { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_vec(&self) -> Vec<u8> { unimplemented!() } }
pub trait IntoUrl { fn vp_into(self) -> Url; }
impl IntoUrl for String { #[verifier::external_body] fn vp_into(self) -> (r: Url) ensures r.text() == self@ { unimplemented!() } }
pub trait VpOr { fn vp_or(self, o: Option<String>) -> Option<String>; }
impl VpOr for Option<String> { fn vp_or(self, o: Option<String>) -> (r: Option<String>) ensures r == (if self.is_some() { self } else { o }) { match self { Some(x) => Some(x), None => o } } }
//@item crates/wasm-split/src/main.rs Cli

// ---- the contract ---------------------------------------------------------------------------------
pub open spec fn strippable(s: Section, names: bool) -> bool {
    match custom(s) { Some(CustomSection::Name(_)) => names, Some(c) => has_prefix(c.cname(), ".debug_"@), None => false }
}
pub open spec fn id_of(s: Section) -> Option<Seq<u8>> { match custom(s) { Some(CustomSection::BuildId(v)) => Some(v@), _ => None } }
/// the first build id of a list of sections
pub open spec fn first_id(ss: Seq<Section>) -> Option<Seq<u8>>
    decreases ss.len()
{ if ss.len() == 0 { None } else { match first_id(ss.drop_last()) { Some(x) => Some(x), None => id_of(ss.last()) } } }
pub open spec fn kept(ss: Seq<Section>, names: bool) -> Seq<Section>
    decreases ss.len()
{ if ss.len() == 0 { Seq::empty() } else if strippable(ss.last(), names) { kept(ss.drop_last(), names) } else { kept(ss.drop_last(), names).push(ss.last()) } }
pub open spec fn is_ext(s: Section, url: Str) -> bool { match custom(s) { Some(CustomSection::ExternalDebugInfo(u)) => u.text() == url, _ => false } }
pub open spec fn base_name(p: Option<PathBuf>) -> Option<Str> { match p { Some(q) => match q.fname() { Some(n) => n.utf8(), None => None }, None => None } }
pub open spec fn url_of(c: Cli) -> Option<Str> { if c.external_dwarf_url.is_some() { Some(c.external_dwarf_url.unwrap()@) } else { base_name(c.debug_out) } }
/// the module with its build id: the input, plus a build id if it had none
pub open spec fn with_id(ss: Seq<Section>, c: Cli, m: Seq<Section>) -> bool {
    if first_id(ss).is_some() { m == ss } else { m.len() == ss.len() + 1 && m.drop_last() =~= ss && id_of(m.last()).is_some() && (c.build_id.is_some() ==> id_of(m.last()) == Some(c.build_id.unwrap().bytes())) }
}
pub open spec fn main_of(m: Seq<Section>, c: Cli, w: Seq<Section>) -> bool {
    let k = if c.strip { kept(m, c.strip_names) } else { m };
    match url_of(c) { Some(u) => w.len() == k.len() + 1 && w.drop_last() =~= k && is_ext(w.last(), u), None => w =~= k }
}
/// what is written: the debug file (everything), then the main file
pub open spec fn split_ok(c: Cli, out: Seq<(PathBuf, Seq<Section>)>) -> bool {
    let ss = stored(c.input);
    let main = if c.out.is_some() { c.out.unwrap() } else { c.input };
    exists|m: Seq<Section>| {
        &&& #[trigger] with_id(ss, c, m)
        &&& (c.debug_out.is_some() ==> out.len() >= 1 && out[0] == (c.debug_out.unwrap(), m))
        &&& (if out.len() > (if c.debug_out.is_some() { 1int } else { 0 }) { out.len() == (if c.debug_out.is_some() { 2int } else { 1 }) && out.last().0 == main && main_of(m, c, out.last().1) }
             else { c.out.is_none() && main_of(m, c, ss) && m == ss })
    }
}
pub open spec fn optv(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
//@fn crates/wasm-split/src/main.rs as_custom_section
//@spec
    ensures r.is_some() == custom(*section).is_some(), r.is_some() ==> *r.unwrap() == custom(*section).unwrap(),
//@end
//@fn crates/wasm-split/src/main.rs is_strippable_section
//@spec
    ensures r == strippable(*section, strip_names),
//@end
//@fn crates/wasm-split/src/main.rs main as=split ren=into,or nloops=2
//@sub fn main ( ) ==> fn main(cli: Cli, fsx: &mut Fs)
//@sub anyhow :: Result ==> Result
//@drop let cli = Cli :: parse
//@drop? println
//@sub? module . encode_into ( ==> fsx.encode_into(&module,
//@spec
    requires old(fsx).out@.len() == 0,
    ensures r.is_ok() ==> split_ok(cli, final(fsx).out@),
//@loop 0 iter=it
        invariant module.sections@ == stored(cli.input), it.index@ <= module.sections@.len(), it.seq().len() == module.sections@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == module.sections@[i],
            optv(vp_acc) == first_id(module.sections@.take(it.index@)),
//@before if vp_acc . is_none ( )
    proof { let t = module.sections@.take(it.index@ + 1); assert(t.drop_last() =~= module.sections@.take(it.index@)); assert(t.last() == *vp_p); }
//@before if let Some ( debug_output )
    let ghost m = module.sections@;
    proof { let ss = stored(cli.input); assert(ss.take(ss.len() as int) =~= ss); assert(m.take(m.len() as int) =~= m); assert(first_id(ss).is_none() ==> m.drop_last() =~= ss); assert(with_id(ss, cli, m)); }
//@loop 1 iter=it
        invariant it.seq() == m, it.index@ <= m.len(), vp_kept@ =~= kept(m.take(it.index@), strip_names),
//@before let vp_c
    proof { let t = m.take(it.index@ + 1); assert(t.drop_last() =~= m.take(it.index@)); assert(t.last() == vp_p); }
//@end
}
fn main() {}
