use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../ids.rs
//@include ../anyhow.rs
//@include ../object.rs
//@include ../sorted.rs

// ---- paths and the file system (assumed) -----------------------------------------------------
/// a path, as text; joining, parent and extension are those of std::path
pub struct PathBuf { p: String }
pub struct Path { p: String }
impl PathBuf { pub uninterp spec fn view(&self) -> Str; }
pub uninterp spec fn p_join(a: Str, b: Str) -> Str;
pub uninterp spec fn p_parent(a: Str) -> Str;
pub uninterp spec fn p_ext(a: Str, e: Str) -> Str;
/// the files the sorter may rewrite: object metadata (*.meta) and bundle references (refs/*)
pub open spec fn is_meta(p: Str) -> bool { exists|q: Str| p == #[trigger] p_ext(q, "meta"@) }
pub open spec fn is_ref(p: Str) -> bool { exists|d: Str, n: Str| p == #[trigger] p_join(p_join(d, "refs"@), n) }
#[verifier::opaque]
pub open spec fn kept(p: Str) -> bool { !is_meta(p) && !is_ref(p) }
/// an object's location never is one of these: its last component has no extension and the directory above is hexadecimal
pub open spec fn loc(root: Str, o: Object) -> Str { p_join(root, sorted_path(o).unwrap()) }
pub mod ax2 {
    use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub broadcast proof fn ax_loc(root: Str, o: Object) ensures sorted_path(o).is_some() ==> kept(#[trigger] loc(root, o)) {}
    pub broadcast proof fn lemma_ref(d: Str, n: Str) ensures !kept(#[trigger] p_join(p_join(d, "refs"@), n)) { reveal(kept); }
    pub broadcast proof fn lemma_meta(q: Str) ensures !kept(#[trigger] p_ext(q, "meta"@)) { reveal(kept); }
    pub broadcast proof fn lemma_aux(a: Map<Str, Seq<u8>>, b: Map<Str, Seq<u8>>, p: Str) ensures #[trigger] only(a, b, p) && !kept(p) ==> aux(a, b) {}
}
/// only metadata and references change
pub open spec fn aux(a: Map<Str, Seq<u8>>, b: Map<Str, Seq<u8>>) -> bool { forall|q: Str| #[trigger] kept(q) ==> (a.dom().contains(q) == b.dom().contains(q) && a[q] == b[q]) }
pub trait PathArg { spec fn pv(&self) -> Str; }
impl PathArg for PathBuf { open spec fn pv(&self) -> Str { self.view() } }
impl<'a> PathArg for &'a PathBuf { open spec fn pv(&self) -> Str { self.view() } }
impl<'a> PathArg for &'a str { open spec fn pv(&self) -> Str { self@ } }
impl<'a> PathArg for &'a String { open spec fn pv(&self) -> Str { self@ } }
impl PathBuf {
    #[verifier::external_body] pub fn join<P: PathArg>(&self, o: P) -> (r: PathBuf) ensures r.view() == p_join(self.view(), o.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<PathBuf>) ensures r.is_some(), r.unwrap().view() == p_parent(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures r.view() == p_ext(self.view(), e@) { unimplemented!() }
}
#[derive(Structural, PartialEq, Eq, Clone, Copy, Debug)]
pub enum IoErrorKind { AlreadyExists, NotFound, Other }
#[derive(Debug)]
pub struct IoError { pub kind: IoErrorKind }
impl IoError { pub fn kind(&self) -> (r: IoErrorKind) ensures r == self.kind { self.kind } }
pub mod io { pub use super::IoError as Error; pub use super::IoErrorKind as ErrorKind; }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for VpErr { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: io::Error) -> VpErr; }
impl core::convert::From<io::Error> for VpErr { #[verifier::external_body] fn from(e: io::Error) -> VpErr { unimplemented!() } }
#[derive(Debug)]
pub struct File { f: u8 }
impl File { pub uninterp spec fn path(&self) -> Str; }
/// the file system: contents by path; `made` lists the files created exclusively, in order
pub struct Fs { pub m: Ghost<Map<Str, Seq<u8>>>, pub made: Ghost<Seq<Str>> }
pub open spec fn zenc(d: Seq<u8>, level: int) -> Seq<u8> { zst(d, level) }
pub uninterp spec fn zst(d: Seq<u8>, level: int) -> Seq<u8>;
/// nothing but the file at p changes
pub open spec fn only(a: Map<Str, Seq<u8>>, b: Map<Str, Seq<u8>>, p: Str) -> bool { forall|q: Str| #![trigger a.dom().contains(q)] #![trigger b.dom().contains(q)] #![trigger kept(q)] q != p ==> (a.dom().contains(q) == b.dom().contains(q) && a[q] == b[q]) }
/// what appending gives
pub open spec fn cat(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if a.len() == 0 { b } else { a + b } }
impl Fs {
    #[verifier::external_body]
    pub fn create_dir_all<P: PathArg>(&mut self, p: P) -> (r: Result<(), io::Error>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<P: PathArg, D>(&mut self, p: P, d: D) -> (r: Result<(), io::Error>) ensures final(self).made == old(self).made, only(old(self).m@, final(self).m@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_new<P: PathArg>(&mut self, p: P) -> (r: Result<File, io::Error>)
        ensures
            r.is_ok() ==> !old(self).m@.dom().contains(p.pv()) && final(self).m@ == old(self).m@.insert(p.pv(), Seq::<u8>::empty()) && final(self).made@ == old(self).made@.push(p.pv()) && r.unwrap().path() == p.pv(),
            r.is_err() ==> *final(self) == *old(self) && ((r->Err_0).kind == io::ErrorKind::AlreadyExists ==> old(self).m@.dom().contains(p.pv())) { unimplemented!() }
    /// opening for overwrite (what create_new is not)
    #[verifier::external_body]
    pub fn create<P: PathArg>(&mut self, p: P) -> (r: Result<File, io::Error>)
        ensures final(self).made == old(self).made, r.is_ok() ==> final(self).m@ == old(self).m@.insert(p.pv(), Seq::<u8>::empty()) && r.unwrap().path() == p.pv(), r.is_err() ==> only(old(self).m@, final(self).m@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&mut self, d: &mut &[u8], f: &mut File) -> (r: Result<u64, io::Error>)
        ensures final(f).path() == old(f).path(), final(self).made == old(self).made, only(old(self).m@, final(self).m@, old(f).path()), old(self).m@.dom().contains(old(f).path()) ==> final(self).m@.dom().contains(old(f).path()), r.is_ok() ==> final(self).m@[old(f).path()] == cat(old(self).m@[old(f).path()], old(d)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_encode(&mut self, d: &[u8], f: &mut File, level: i32) -> (r: Result<(), io::Error>)
        ensures final(f).path() == old(f).path(), final(self).made == old(self).made, only(old(self).m@, final(self).m@, old(f).path()), old(self).m@.dom().contains(old(f).path()) ==> final(self).m@.dom().contains(old(f).path()), r.is_ok() ==> final(self).m@[old(f).path()] == cat(old(self).m@[old(f).path()], zst(d@, level as int)) { unimplemented!() }
}
// ---- the rest of the environment ---------------------------------------------------------------
pub struct Arch { a: u8 }
pub struct ByteView { b: u8 }
#[derive(Debug)]
pub struct ObjErr { b: u8 }
impl Object {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn arch(&self) -> Arch { unimplemented!() }
    #[verifier::external_body] pub fn data(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
#[derive(Debug)]
pub struct Archive { a: u8 }
impl Archive {
    pub uninterp spec fn objs(&self) -> Seq<Result<Object, ObjErr>>;
    #[verifier::external_body] pub fn parse(b: &ByteView) -> (r: Result<Archive, ObjErr>) ensures r.is_ok() ==> r.unwrap().objs() == objects_of(*b) { unimplemented!() }
    #[verifier::external_body] pub fn objects(&self) -> (r: Vec<Result<Object, ObjErr>>) ensures r@ == self.objs() { unimplemented!() }
}
pub uninterp spec fn objects_of(b: ByteView) -> Seq<Result<Object, ObjErr>>;
pub uninterp spec fn the_config() -> RunConfig;
//@item crates/symsorter/src/config.rs RunConfig
//@item crates/symsorter/src/config.rs SortConfig
impl RunConfig { #[verifier::external_body] pub fn get() -> (r: &'static RunConfig) ensures *r == the_config() { unimplemented!() } }
//@item crates/symsorter/src/app.rs DebugIdMeta
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub fn to_vec<T>(t: &T) -> (r: Result<Vec<u8>, super::io::Error>) { unimplemented!() } }
pub trait VpContext<T> { fn context(self, s: String) -> (r: Result<T>); }
impl<T> VpContext<T> for Result<T, VpErr> { #[verifier::external_body] fn context(self, s: String) -> (r: Result<T>) ensures r.is_ok() == self.is_ok(), r.is_ok() ==> r.unwrap() == self.unwrap() { unimplemented!() } }

// contracts of the two functions below, discharged by C02
#[verifier::external_body]
pub fn get_unified_id(obj: &Object) -> (r: Result<String>) ensures r.is_ok() == sorted_id(*obj).is_some(), r.is_ok() ==> r.unwrap()@ =~= sorted_id(*obj).unwrap() { unimplemented!() }
#[verifier::external_body]
pub fn get_target_filename(obj: &Object) -> (r: Result<PathBuf>) ensures r.is_ok() == sorted_path(*obj).is_some(), r.is_ok() ==> r.unwrap().view() =~= sorted_path(*obj).unwrap() { unimplemented!() }
impl PathArg for Str2 { uninterp spec fn pv(&self) -> Str; }
pub struct Str2 {}

// ---- the contract ------------------------------------------------------------------------------
pub open spec fn storable(o: Object) -> bool { o.okind() == ObjectKind::Executable || o.okind() == ObjectKind::Library || o.okind() == ObjectKind::Debug || o.okind() == ObjectKind::Sources }
pub open spec fn level(c: SortConfig) -> int { if c.compression_level == 0 { 0 } else if c.compression_level == 1 { 3 } else if c.compression_level == 2 { 10 } else if c.compression_level == 3 { 19 } else { 22 } }
pub open spec fn content(o: Object, c: SortConfig) -> Seq<u8> { if c.compression_level == 0 { o.bytes() } else { zst(o.bytes(), level(c)) } }
/// no existing object file is touched
pub open spec fn untouched(a: Map<Str, Seq<u8>>, b: Map<Str, Seq<u8>>) -> bool { forall|p: Str| #[trigger] kept(p) && a.dom().contains(p) ==> b.dom().contains(p) && b[p] == a[p] }
pub open spec fn owner(os: Seq<Result<Object, ObjErr>>, k: int, p: Str) -> bool { 0 <= k < os.len() && os[k].is_ok() && storable(os[k].unwrap()) && sorted_path(os[k].unwrap()).is_some() && p == loc(the_config().output.view(), os[k].unwrap()) }
/// every new object file is the location of an object of the input and holds its bytes
pub open spec fn all_owned(a: Map<Str, Seq<u8>>, b: Map<Str, Seq<u8>>, os: Seq<Result<Object, ObjErr>>, n: int, c: SortConfig) -> bool {
    forall|p: Str| #[trigger] kept(p) && b.dom().contains(p) && !a.dom().contains(p) ==> exists|k: int| 0 <= k < n && #[trigger] os[k] == os[k] && owner(os, k, p) && b[p] == content(os[k].unwrap(), c)
}
pub open spec fn all_stored(b: Map<Str, Seq<u8>>, os: Seq<Result<Object, ObjErr>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] os[k]).is_ok() && (storable(os[k].unwrap()) ==> sorted_path(os[k].unwrap()).is_some() && b.dom().contains(loc(the_config().output.view(), os[k].unwrap())))
}

pub mod body {
use super::*;
broadcast use {ax::ax_str_ext, ax2::ax_loc, ax2::lemma_ref, ax2::lemma_meta, ax2::lemma_aux};
//@fn crates/symsorter/src/app.rs process_file keep=parse while=0
//@sub sort_config : & SortConfig ==> fsx: &mut Fs, sort_config: &SortConfig
//@sub bv : ByteView < 'static > ==> bv: ByteView
//@sub? fs :: File :: create_new ( ==> fsx.create_new(
//@sub? fs :: File :: create ( ==> fsx.create(
//@sub? File :: create_new ( ==> fsx.create_new(
//@sub? File :: create ( ==> fsx.create(
//@sub? fs :: create_dir_all ( ==> fsx.create_dir_all(
//@sub? fs :: write ( ==> fsx.write(
//@sub? io :: copy ( ==> fsx.copy(
//@sub? copy_encode ( ==> fsx.copy_encode(
//@spec
    ensures
        untouched(old(fsx).m@, final(fsx).m@),
        r.is_ok() ==> all_owned(old(fsx).m@, final(fsx).m@, objects_of(bv), objects_of(bv).len() as int, *sort_config),
        r.is_ok() && !the_config().ignore_errors ==> all_stored(final(fsx).m@, objects_of(bv), objects_of(bv).len() as int),
        r.is_ok() ==> final(fsx).made@.len() == old(fsx).made@.len() + r.unwrap()@.len(),
//@loop 0
        invariant
            vp_v0@ == objects_of(bv), vp_i0 <= vp_v0@.len(), archive.objs() == objects_of(bv), *root == the_config().output,
            compression_level == level(*sort_config),
            untouched(old(fsx).m@, fsx.m@),
            all_owned(old(fsx).m@, fsx.m@, objects_of(bv), vp_i0 as int, *sort_config),
            all_stored(fsx.m@, objects_of(bv), vp_i0 as int),
            fsx.made@.len() == old(fsx).made@.len() + rv@.len(),
        decreases vp_v0@.len() - vp_i0,
//@end
}
}
fn main() {}
