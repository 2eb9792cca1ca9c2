use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- the cache tree a run finds (nobody else changes it meanwhile) ---------------------------------------
pub struct Path { pub n: Ghost<nat> }
pub type PathBuf = Path;
/// the run is a dry one
pub uninterp spec fn dry() -> bool;
pub uninterp spec fn listing(d: Path) -> Seq<Path>;
/// directory trees are finite
pub uninterp spec fn depth(d: Path) -> nat;
pub proof fn ax_depth(d: Path, i: int) requires 0 <= i < listing(d).len() ensures depth(listing(d)[i]) < depth(d) { admit(); }
pub uninterp spec fn is_directory(p: Path) -> bool;
pub uninterp spec fn absent(p: Path) -> bool;
/// the documented expiry of the cache file has passed (C10)
pub uninterp spec fn expired(p: Path) -> bool;
pub uninterp spec fn ext_of(p: Path) -> Option<Str>;
pub uninterp spec fn sidecar_of(p: Path) -> Path;
pub open spec fn sidecar(p: Path) -> bool { ext_of(p) == Some("metadata"@) }
/// an operation on the path failed: what is there cannot be judged
pub uninterp spec fn failed(p: Path) -> bool;
pub open spec fn unjudged(p: Path) -> bool { failed(p) || failed(sidecar_of(p)) }
/// the path has been removed by this run
pub uninterp spec fn removed(p: Path) -> bool;
/// nothing in the directory is to be kept
pub uninterp spec fn cleared(d: Path) -> bool;
pub open spec fn goes(p: Path) -> bool { sidecar(p) || (if is_directory(p) { cleared(p) } else { absent(p) || expired(p) }) }
pub open spec fn all_go(v: Seq<Path>) -> bool { forall|i: int| 0 <= i < v.len() ==> goes(#[trigger] v[i]) }
pub proof fn def_cleared(d: Path) ensures cleared(d) <==> absent(d) || all_go(listing(d)) { admit(); }
/// something in the directory could not be judged or removed
pub uninterp spec fn spoiled(d: Path) -> bool;
pub open spec fn spoils(p: Path) -> bool { !sidecar(p) && (if is_directory(p) { spoiled(p) || failed(p) } else { unjudged(p) }) }
pub open spec fn holds_back(p: Path) -> bool { spoils(p) || !goes(p) }
pub open spec fn some_back(v: Seq<Path>, n: int) -> bool { exists|i: int| 0 <= i < n && holds_back(#[trigger] v[i]) }
pub proof fn lemma_back(v: Seq<Path>, n: int) requires n >= 0 ensures some_back(v, n + 1) == (some_back(v, n) || holds_back(v[n]))
{ if some_back(v, n) { let i = choose|i: int| 0 <= i < n && holds_back(#[trigger] v[i]); assert(holds_back(v[i])); } if holds_back(v[n]) { assert(0 <= n < n + 1 && holds_back(v[n])); } }
pub proof fn def_spoiled(d: Path) ensures spoiled(d) <==> exists|i: int| 0 <= i < listing(d).len() && spoils(#[trigger] listing(d)[i]) { admit(); }
/// the run is over for this entry: files are judged and removed exactly if they have expired; directories exactly if nothing in them is kept
pub uninterp spec fn swept(d: Path) -> bool;
pub open spec fn done(p: Path) -> bool {
    if sidecar(p) { true } else if is_directory(p) { swept(p) && (cleared(p) && !dry() ==> removed(p) || spoils(p)) }
    else { unjudged(p) || absent(p) || (expired(p) && !dry() ==> removed(p)) }
}
pub open spec fn all_done(v: Seq<Path>) -> bool { forall|i: int| 0 <= i < v.len() ==> done(#[trigger] v[i]) }
pub proof fn def_swept(d: Path) ensures swept(d) <==> absent(d) || all_done(listing(d)) { admit(); }

// ---- what may be removed: an expired cache file, the metadata of one, a directory in which nothing is kept; nothing in a dry run ----
pub open spec fn may_remove(p: Path) -> bool { !dry() && (absent(p) || expired(p) || exists|o: Path| #[trigger] sidecar_of(o) == p && (expired(o) || absent(o))) }
#[derive(Clone, Copy)] pub enum ErrorKind { NotFound, InvalidData, Other }
pub struct Error { pub k: Ghost<ErrorKind> }
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[verifier::external_body] pub fn vp_err() -> Error { unimplemented!() }
pub mod io { pub type Result<T> = core::result::Result<T, super::Error>; }
impl Error { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k@ { unimplemented!() } }
#[verifier::external_body] pub fn remove_file(p: &Path) -> (r: io::Result<()>)
    requires may_remove(*p)
    ensures (match r { Ok(_) => removed(*p), Err(e) => if e.k@ is NotFound { absent(*p) } else { failed(*p) } }) { unimplemented!() }
#[verifier::external_body] pub fn remove_dir_all(p: &Path) -> (r: io::Result<()>)
    requires !dry(), cleared(*p)
    ensures r is Ok ==> removed(*p), r is Err ==> failed(*p) { unimplemented!() }
/// an entry that could not be listed is not in the listing (the run ends with the error)
pub struct DirEntry { pub p: Path }
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == self.p { unimplemented!() } }
pub open spec fn entry_is(x: io::Result<DirEntry>, p: Path) -> bool { x is Ok ==> x->Ok_0.p == p }
#[verifier::external_body] pub fn read_dir(d: &Path) -> (r: io::Result<Vec<io::Result<DirEntry>>>)
    ensures (match r { Ok(v) => !absent(*d) && v@.len() == listing(*d).len() && forall|i: int| 0 <= i < v@.len() ==> entry_is(#[trigger] v@[i], listing(*d)[i]), Err(e) => e.k@ is NotFound ==> absent(*d) }) { unimplemented!() }
pub struct FsMeta { pub m: Ghost<Path> }
impl FsMeta {
    #[verifier::external_body] pub fn len(&self) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures !r ==> failed(self.m@) { unimplemented!() }
}
impl Path {
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<FsMeta>)
        ensures (match r { Ok(m) => !absent(*self) && m.m@ == *self, Err(e) => if e.k@ is NotFound { absent(*self) } else { failed(*self) } }) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_directory(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_ext_is(p: &Path, e: &str) -> (r: bool) ensures r == (ext_of(*p) == Some(e@)) { unimplemented!() }
/// discharged by C10 for the function that is passed a closure
pub fn catch_not_found<R>(f: io::Result<R>) -> (r: io::Result<Option<R>>)
    ensures (match f { Ok(x) => r == Ok::<Option<R>, Error>(Some(x)), Err(e) => if e.k@ is NotFound { r == Ok::<Option<R>, Error>(None) } else { r == Err::<Option<R>, Error>(e) } })
{ match f { Ok(x) => Ok(Some(x)), Err(e) => match e.kind() { ErrorKind::NotFound => Ok(None), _ => Err(e) } } }
#[verifier::external_body] pub fn metadata_path(p: &Path) -> (r: PathBuf) ensures r == sidecar_of(*p) { unimplemented!() }
#[verifier::external_body] pub fn vp_any() -> bool { unimplemented!() }
pub struct CleanupStats { pub x: u8 }
impl Default for CleanupStats { #[verifier::external_body] fn default() -> CleanupStats { unimplemented!() } }
pub struct Cache { pub cache_dir: Option<PathBuf> }
pub struct Entry { pub e: u8 }
impl Cache {
    /// discharged by C10; looking at a file in a dry run leaves even metadata that cannot be parsed in place
    #[verifier::external_body] pub fn check_expiry(&self, p: &Path, dry_run: bool) -> (r: io::Result<(Entry, u8)>)
        requires dry() ==> dry_run
        ensures (match r { Ok(_) => !expired(*p), Err(e) => if e.k@ is NotFound { expired(*p) || absent(*p) } else { failed(*p) } }) { unimplemented!() }
}
//@item crates/symbolicator-service/src/caching/fs.rs METADATA_EXTENSION
//@isub & str ==> & 'static str

/// the run has been started over this directory
pub uninterp spec fn entered(d: Path) -> bool;
pub proof fn def_entered(d: Path) ensures entered(d) { admit(); }
pub struct Rng {}
#[verifier::external_body] pub fn thread_rng() -> Rng { unimplemented!() }
/// a shuffle leaves the same caches in the vector
#[verifier::external_body] pub fn vp_shuffle<'a>(v: &mut Vec<&'a Cache>, r: &mut Rng) ensures final(v)@.len() == old(v)@.len(), forall|c: &Cache| #[trigger] old(v)@.contains(c) ==> final(v)@.contains(c) { unimplemented!() }
//@item crates/symbolicator-service/src/caching/mod.rs Caches derive=
/// every cache this service writes (the shared cache is elsewhere)
pub open spec fn is_one(c: Cache, a: Caches) -> bool { c == a.objects || c == a.object_meta || c == a.auxdifs || c == a.il2cpp || c == a.symcaches || c == a.cficaches || c == a.ppdb_caches || c == a.sourcemap_caches || c == a.sourcefiles || c == a.diagnostics || c == a.proguard || c == a.source_index }
pub open spec fn tried(c: Cache) -> bool { c.cache_dir is Some ==> entered(c.cache_dir->0) }
pub open spec fn whole(c: Cache) -> bool { c.cache_dir is Some && swept(c.cache_dir->0) }

// ---- the code --------------------------------------------------------------------------------------------
impl Cache {
//@fn crates/symbolicator-service/src/caching/cleanup.rs Cache::try_cleanup_path
//@drop? stats .
//@sub? catch_not_found ( || ==> catch_not_found (
//@ret r
//@spec
    requires dry_run == dry(), !is_directory(*path), !sidecar(*path)
    ensures r is Ok && r->Ok_0.0 ==> absent(*path) || expired(*path) && (!dry() ==> removed(*path)),
        r is Ok && !r->Ok_0.0 ==> !expired(*path) && !absent(*path),
        r is Err ==> unjudged(*path)
//@end
//@fn crates/symbolicator-service/src/caching/cleanup.rs Cache::cleanup_directory_recursive
//@drop? stats .
//@drop? stats +=
//@drop? stats1 +=
//@drop? sentry :: with_scope
//@sub? catch_not_found ( || ==> catch_not_found (
//@sub? path . extension ( ) . and_then ( OsStr :: to_str ) == Some ( METADATA_EXTENSION ) ==> vp_ext_is ( & path , METADATA_EXTENSION )
//@sub? is_empty &= file_removed ==> is_empty = is_empty && file_removed
//@sub? is_empty &= dir_is_empty ==> is_empty = is_empty && dir_is_empty
//@sub? is_empty_1 & is_empty_2 ==> is_empty_1 && is_empty_2
//@sub? let identity = || ( true , CleanupStats :: default ( ) ) ; ==> let identity = || -> ( r : ( bool , CleanupStats ) ) ensures r . 0 { ( true , CleanupStats :: default ( ) ) } ;
//@ret r
//@spec
    requires dry_run == dry()
    ensures r is Ok && r->Ok_0.0 ==> cleared(*directory),
        r is Ok && !r->Ok_0.0 ==> !cleared(*directory) || spoiled(*directory),
        r is Ok ==> swept(*directory), entered(*directory)
    decreases depth(*directory)
//@start
    proof { reveal_strlit("metadata"); def_cleared(*directory); def_swept(*directory); def_spoiled(*directory); def_entered(*directory); }
//@loop 0 iter=it
    invariant it.seq().len() == listing(*directory).len(), forall|i: int| 0 <= i < it.seq().len() ==> entry_is(#[trigger] it.seq()[i], listing(*directory)[i]),
        dry_run == dry(), forall|x: (bool, CleanupStats)| identity.ensures((), x) ==> x.0, identity.requires(()),
        vp_acc.0 && vp_grp.0 ==> forall|i: int| 0 <= i < it.index@ ==> goes(#[trigger] listing(*directory)[i]),
        !(vp_acc.0 && vp_grp.0) ==> some_back(listing(*directory), it.index@ as int),
        forall|i: int| 0 <= i < it.index@ ==> done(#[trigger] listing(*directory)[i]),
//@body 0
    proof { def_entered(*directory); lemma_back(listing(*directory), it.index@ as int); ax_depth(*directory, it.index@ as int); assert(entry_is(it.seq()[it.index@], listing(*directory)[it.index@])); def_cleared(listing(*directory)[it.index@]); def_swept(listing(*directory)[it.index@]); def_spoiled(listing(*directory)[it.index@]); }
//@end
//@fn crates/symbolicator-service/src/caching/cleanup.rs Cache::cleanup res=map
//@ret r
//@spec
    requires dry_run == dry()
    ensures tried(*self), r is Ok ==> whole(*self), self.cache_dir is None ==> r is Err
//@end
}
impl Caches {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-service/src/caching/cleanup.rs Caches::cleanup
//@drop? let stderr
//@sub? = & self ; ==> = self ;
//@sub? caches . as_mut_slice ( ) . shuffle ( ==> vp_shuffle ( & mut caches ,
//@sub? into_par_iter ==> into_iter
//@ret r
//@spec
    requires dry_run == dry()
    ensures forall|c: Cache| #[trigger] is_one(c, *self) ==> tried(c), r is Ok ==> forall|c: Cache| #[trigger] is_one(c, *self) ==> whole(c)
//@before? let mut rng
    let ghost vp_in = caches@; proof { assert(vp_in[0] == self.objects && vp_in[1] == self.object_meta && vp_in[2] == self.auxdifs && vp_in[3] == self.il2cpp && vp_in[4] == self.symcaches && vp_in[5] == self.cficaches && vp_in[6] == self.ppdb_caches && vp_in[7] == self.sourcemap_caches && vp_in[8] == self.sourcefiles && vp_in[9] == self.diagnostics && vp_in[10] == self.proguard && vp_in[11] == self.source_index);
        assert forall|c: Cache| #[trigger] is_one(c, *self) implies vp_in.contains(&c) by {} }
//@before? let results
    let ghost vp_all = caches@; proof { assert forall|c: Cache| #[trigger] is_one(c, *self) implies vp_all.contains(&c) by {} }
//@loop 0 iter=it
    invariant it.seq() == vp_all, vp_acc@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> tried(*#[trigger] vp_all[i]) && (vp_acc@[i] is Ok ==> whole(*vp_all[i]))
//@before? let mut first_error
    let ghost vp_res = results@;
//@loop 1 iter=ir
    invariant ir.seq() == vp_res, first_error is None ==> forall|i: int| 0 <= i < ir.index@ ==> #[trigger] vp_res[i] is Ok
//@before? match first_error
    proof { assert forall|c: Cache| #[trigger] is_one(c, *self) implies tried(c) && (first_error is None ==> whole(c)) by { let i = choose|i: int| 0 <= i < vp_all.len() && vp_all[i] == &c; assert(vp_all[i] == &c); assert(first_error is None ==> vp_res[i] is Ok); } }
//@end
}
}
fn main() {}
