use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../cache_key.rs

// ---- the tables --------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/caches/versions.rs CacheVersions
impl CacheVersion {
//@fn crates/symbolicator-service/src/caches/versions.rs CacheVersion::new
//@ret r
//@spec
    ensures r.number == number, r.path_format == path_format
//@end
//@fn crates/symbolicator-service/src/caches/versions.rs <PartialEq for CacheVersion>::eq as=vp_eq
//@ret r
//@spec
    ensures r == (self.number == other.number)
//@end
}
impl PartialEq for CacheVersion { #[verifier::external_body] fn eq(&self, o: &CacheVersion) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CacheVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CacheVersion) -> bool { self.number == o.number } }
/// versions go up; fallbacks are earlier versions, newest first; none of them is the current one
pub open spec fn lawful(current: CacheVersion, fallbacks: Seq<CacheVersion>, previous: Seq<CacheVersion>) -> bool {
    &&& forall|i: int| 0 <= i < previous.len() ==> (#[trigger] previous[i]).number < current.number
    &&& forall|i: int| 0 <= i < fallbacks.len() ==> (#[trigger] fallbacks[i]).number != current.number
    &&& forall|i: int, j: int| 0 <= i < j < fallbacks.len() ==> (#[trigger] fallbacks[i]).number > (#[trigger] fallbacks[j]).number
    &&& forall|i: int| 0 <= i < fallbacks.len() ==> has(previous, #[trigger] fallbacks[i])
}
pub open spec fn has(s: Seq<CacheVersion>, v: CacheVersion) -> bool
    decreases s.len()
{ s.len() > 0 && (s.last() == v || has(s.drop_last(), v)) }
pub mod tables { use super::*;
//@item crates/symbolicator-service/src/caches/versions.rs CacheVersions
//@isub & 'static [ CacheVersion ] ==> Vec<CacheVersion>
//@tables crates/symbolicator-service/src/caches/versions.rs CacheVersions ensures lawful(r.current, r.fallbacks@, r.previous@) hint reveal_with_fuel(has, 24);
}

// ---- directories -------------------------------------------------------------------------------------
pub open spec fn dir_of(n: u32) -> Str { "v"@ + dec(n as int) + "/"@ }
pub open spec fn under(p: Str, n: u32) -> bool { has_prefix(p, dir_of(n)) }
pub proof fn theorem_directories(k: CacheKey, l: CacheKey, v: CacheVersion, w: CacheVersion)
    requires v.number != w.number
    ensures under(path_of(v, k.hash@), v.number), !under(path_of(v, k.hash@), w.number), path_of(v, k.hash@) != path_of(w, l.hash@)
{
    lemma_under(v, k); lemma_under(w, l);
    reveal_strlit("v"); reveal_strlit("/");
    let p = path_of(v, k.hash@);
    if under(p, w.number) { lemma_one_dir(p, v.number, w.number); }
}
proof fn lemma_under(v: CacheVersion, k: CacheKey) ensures under(path_of(v, k.hash@), v.number)
{ let p = path_of(v, k.hash@); let d = dir_of(v.number); assert(p.subrange(0, d.len() as int) =~= d); }
proof fn lemma_one_dir(p: Str, n: u32, m: u32)
    requires under(p, n), under(p, m)
    ensures n == m
{
    reveal_strlit("v"); reveal_strlit("/");
    ax_dec(n as int); ax_dec(m as int); ax_dec_inj(n as int, m as int);
    let a = dec(n as int); let b = dec(m as int);
    assert(dir_of(n)[a.len() as int + 1] == '/'); assert(dir_of(m)[b.len() as int + 1] == '/');
    assert(forall|i: int| 0 <= i < a.len() ==> p[i + 1] == #[trigger] a[i]) by { assert forall|i: int| 0 <= i < a.len() implies p[i + 1] == #[trigger] a[i] by { assert(dir_of(n)[i + 1] == a[i]); assert(p.subrange(0, dir_of(n).len() as int)[i + 1] == a[i]); } }
    assert(forall|i: int| 0 <= i < b.len() ==> p[i + 1] == #[trigger] b[i]) by { assert forall|i: int| 0 <= i < b.len() implies p[i + 1] == #[trigger] b[i] by { assert(dir_of(m)[i + 1] == b[i]); assert(p.subrange(0, dir_of(m).len() as int)[i + 1] == b[i]); } }
    assert(p.subrange(0, dir_of(n).len() as int)[a.len() as int + 1] == '/'); assert(p.subrange(0, dir_of(m).len() as int)[b.len() as int + 1] == '/');
    if a.len() < b.len() { assert(p[a.len() as int + 1] == b[a.len() as int]); assert(false); }
    if b.len() < a.len() { assert(p[b.len() as int + 1] == a[b.len() as int]); assert(false); }
    assert(a =~= b);
}

// ---- looking up and writing --------------------------------------------------------------------------
pub mod io { use super::*;
    pub enum ErrorKind { NotFound, InvalidData, Other }
    pub struct Error { pub k: Ghost<ErrorKind> }
    impl Error { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k@ { unimplemented!() } }
    impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { self == o } }
}
pub struct Duration { pub d: u8 }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] pub struct ByteView { b: u8 }
impl ByteView { #[verifier::external_body] pub fn clone(&self) -> (r: ByteView) ensures r == *self { unimplemented!() } }
impl CacheKey { #[verifier::external_body] pub fn clone(&self) -> (r: CacheKey) ensures r == *self { unimplemented!() } }
pub struct Metadata { pub scope: Scope }
impl Metadata { #[verifier::external_body] pub fn from_key(k: &CacheKey) -> Metadata { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/metadata.rs CacheEntry
impl<T> CacheEntry<T> {
//@fn crates/symbolicator-service/src/caching/metadata.rs CacheEntry::contents as=contents
//@ret r
//@spec
    ensures *r == self.contents
//@end
}
pub struct Instant { pub t: u8 }
//@item crates/symbolicator-service/src/caching/memory.rs InMemoryItem
pub enum ExpirationTime { RefreshIn(Duration), TouchIn(Duration) }
impl ExpirationTime {
    #[verifier::external_body] pub fn was_touched(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn as_instant(&self) -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn for_fresh_status<T>(c: &Cache, e: &CacheEntry<T>) -> ExpirationTime { unimplemented!() }
}
/// a path: a directory and the text joined to it
#[verifier::external_body] pub struct Path { p: u8 }
pub trait VpJoin { spec fn jv(&self) -> Str; }
impl VpJoin for String { open spec fn jv(&self) -> Str { self@ } }
impl VpJoin for &String { open spec fn jv(&self) -> Str { (*self)@ } }
impl VpJoin for &str { open spec fn jv(&self) -> Str { (*self)@ } }
impl Path { pub uninterp spec fn sub(&self) -> Str;
    #[verifier::external_body] pub fn join<J: VpJoin>(&self, s: J) -> (r: Path) ensures r.sub() == s.jv() { unimplemented!() } }
/// what open_cachefile finds at a path (C10): an entry, none (or an expired one), or an i/o error, which `?` turns
/// into an InternalError (From<io::Error>, C15)
#[verifier::external_body] pub struct Cache { c: u8 }
pub uninterp spec fn on_disk(c: Cache, at: Str) -> Result<Option<CacheEntry<ByteView>>, io::Error>;
impl Cache {
    pub uninterp spec fn has_dir(&self) -> bool;
    #[verifier::external_body] pub fn cache_dir(&self) -> (r: Option<&Path>) ensures r.is_some() == self.has_dir() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> &'static str { unimplemented!() }
    #[verifier::external_body] pub fn open_cachefile(&self, p: &Path) -> (r: Result<Option<(CacheEntry<ByteView>, ExpirationTime)>, CacheError>)
        ensures (match on_disk(*self, p.sub()) { Ok(Some(e)) => r matches Ok(Some(x)) && x.0 == e, Ok(None) => r matches Ok(None), Err(e) => r == Err::<Option<(CacheEntry<ByteView>, ExpirationTime)>, CacheError>(CacheError::InternalError) }) { unimplemented!() }
}
pub trait VpOkOr { spec fn ov(&self) -> Option<(CacheEntry<ByteView>, ExpirationTime)>; fn vp_ok_or(self, e: CacheError) -> (r: Result<(CacheEntry<ByteView>, ExpirationTime), CacheError>) ensures (match self.ov() { Some(x) => r == Ok::<(CacheEntry<ByteView>, ExpirationTime), CacheError>(x), None => r == Err::<(CacheEntry<ByteView>, ExpirationTime), CacheError>(e) }); }
impl VpOkOr for Option<(CacheEntry<ByteView>, ExpirationTime)> { open spec fn ov(&self) -> Option<(CacheEntry<ByteView>, ExpirationTime)> { *self } fn vp_ok_or(self, e: CacheError) -> Result<(CacheEntry<ByteView>, ExpirationTime), CacheError> { match self { Some(x) => Ok(x), None => Err(e) } } }
//@fn crates/symbolicator-service/src/caching/memory.rs lookup_local_cache
//@drop? let _scope = Hub
//@drop? sentry ::
//@sub? ByteView < 'static > ==> ByteView
//@sub? . ok_or ( ==> . vp_ok_or (
//@ret r
//@spec
    ensures (match on_disk(*config, cache_key@) {
        Ok(Some(e)) => r.is_ok() && r->Ok_0.0.data == e,
        Ok(None) => r == Err::<(InMemoryItem<ByteView>, bool), CacheError>(CacheError::NotFound),
        Err(_) => r == Err::<(InMemoryItem<ByteView>, bool), CacheError>(CacheError::InternalError) })
//@end

/// the kind of request: its versions (T::VERSIONS) and how it loads what is stored
pub trait CacheItemRequest: Sized { type Item;
    fn clone(&self) -> (r: Self) ensures r == *self;
    spec fn vs() -> CacheVersions;
    fn versions() -> (r: CacheVersions) ensures r == Self::vs();
    spec fn loaded(&self, b: ByteView) -> CacheContents<Self::Item>;
    fn load(&self, b: ByteView) -> (r: CacheContents<Self::Item>) ensures r == self.loaded(b);
}
pub open spec fn cur<T: CacheItemRequest>() -> u32 { T::vs().current.number }
pub open spec fn load_of<T: CacheItemRequest>(q: T, c: CacheContents<ByteView>) -> CacheContents<T::Item> { match c { Ok(b) => q.loaded(b), Err(e) => Err(e) } }
impl InMemoryItem<ByteView> { #[verifier::external_body] pub fn vp_and_load<T: CacheItemRequest>(self, q: &T) -> (r: InMemoryItem<T::Item>) ensures r.data.contents == load_of(*q, self.data.contents), r.data.metadata == self.data.metadata { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/shared_cache/mod.rs CacheStoreReason
/// the shared cache, to be used with paths of one version only
#[verifier::external_body] pub struct SharedCacheService { s: u8 }
pub struct AsyncFile { f: u8 }
pub struct StdFile { f: u8 }
pub mod tokio { pub mod fs { pub struct File {} impl File { #[verifier::external_body] pub fn from_std(f: super::super::StdFile) -> super::super::AsyncFile { unimplemented!() } } } }
impl SharedCacheService {
    pub uninterp spec fn only(&self) -> u32;
    #[verifier::external_body] pub fn fetch(&self, name: &'static str, at: &String, f: AsyncFile) -> bool requires under(at@, self.only()) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, name: &'static str, at: &String, b: ByteView, r: CacheStoreReason) requires under(at@, self.only()) { unimplemented!() }
}
#[verifier::external_body] pub struct NamedTempFile { s: u8 }
impl NamedTempFile {
    #[verifier::external_body] pub fn reopen(&self) -> Result<StdFile, io::Error> { unimplemented!() }
    #[verifier::external_body] pub fn as_file(&self) -> &StdFile { unimplemented!() }
}
impl ByteView { #[verifier::external_body] pub fn map_file_ref(f: &StdFile) -> Result<ByteView, io::Error> { unimplemented!() } }
impl<T> CacheEntry<T> { #[verifier::external_body] pub fn from_err(e: io::Error) -> CacheEntry<T> { unimplemented!() } }
/// what is written and removed while entries of a kind are written
#[verifier::external_body] pub fn vp_persist<T: CacheItemRequest>(t: NamedTempFile, p: &Path) -> Result<StdFile, io::Error> requires under(p.sub(), cur::<T>()) { unimplemented!() }
#[verifier::external_body] pub fn vp_write_metadata<T: CacheItemRequest>(p: &Path, m: &Metadata) -> Result<(), io::Error> requires under(p.sub(), cur::<T>()) { unimplemented!() }
pub trait VpP { spec fn pv(&self) -> Str; }
impl VpP for Path { open spec fn pv(&self) -> Str { self.sub() } }
impl VpP for &Path { open spec fn pv(&self) -> Str { self.sub() } }
#[verifier::external_body] pub fn vp_remove<T: CacheItemRequest, P: VpP>(p: P) -> Result<(), io::Error> requires !under(p.pv(), cur::<T>()) { unimplemented!() }
#[verifier::external_body] pub fn vp_metadata_path(p: Path) -> (r: Path) ensures forall|n: u32| #[trigger] under(r.sub(), n) == under(p.sub(), n) { unimplemented!() }
/// an entry found under a path of version n
pub uninterp spec fn of_version(e: CacheEntry<ByteView>, n: u32) -> bool;
pub proof fn ax_of_version(c: Cache, k: CacheKey, v: CacheVersion)
    ensures on_disk(c, path_of(v, k.hash@)) matches Ok(Some(e)) ==> of_version(e, v.number) { admit(); }
/// a computed entry is one of the current version
pub open spec fn order(c: CacheVersions) -> Seq<CacheVersion> { seq![c.current] + c.fallbacks@ }
#[verifier::external_body] pub fn vp_copy(o: &[CacheVersion]) -> (r: Vec<CacheVersion>) ensures r@ == o@ { unimplemented!() }
pub struct VpOnce { pub v: CacheVersion }
pub fn vp_once(v: CacheVersion) -> (r: VpOnce) ensures r.v == v { VpOnce { v } }
impl VpOnce { #[verifier::external_body] pub fn chain(self, o: &[CacheVersion]) -> (r: Vec<CacheVersion>) ensures r@ == seq![self.v] + o@ { unimplemented!() } }

pub open spec fn missing(c: Cache, k: CacheKey, v: CacheVersion) -> bool { on_disk(c, path_of(v, k.hash@)) == Ok::<Option<CacheEntry<ByteView>>, io::Error>(None) }
pub open spec fn served<T: CacheItemRequest>(q: T, r: CacheContents<T::Item>, c: Cache, k: CacheKey, v: CacheVersion) -> bool {
    match on_disk(c, path_of(v, k.hash@)) { Ok(Some(e)) => r == load_of(q, e.contents), Ok(None) => false, Err(_) => r == Err::<T::Item, CacheError>(CacheError::InternalError) }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct CacherRest<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)] pub struct Cacher<T> { pub config: Cache, pub rest: CacherRest<T> }
impl<T: CacheItemRequest> Cacher<T> {
    #[verifier::external_body] fn shared_cache(&self, q: &T) -> (r: Option<&SharedCacheService>) ensures r.is_some() ==> r.unwrap().only() == cur::<T>() { unimplemented!() }
    #[verifier::external_body] fn spawn_refresh(&self, q: T, k: CacheKey) { unimplemented!() }
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::load_from_shared_cache async stub=shared_cache,clone
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub? ByteView < 'static > ==> ByteView
//@ret r
//@start
    proof { lemma_under(T::vs().current, *key); }
//@spec
    requires lawful(T::vs().current, T::vs().fallbacks@, T::vs().previous@)
//@end
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::store_in_shared_cache stub=shared_cache,clone
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub? ByteView < 'static > ==> ByteView
//@ret r
//@start
    proof { lemma_under(T::vs().current, *key); }
//@spec
    requires of_version(*entry, cur::<T>())
//@end
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::write_cache_file stub=persist_tempfile while=0
//@drop? sentry ::
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub? ByteView < '_ > ==> ByteView
//@sub? persist_tempfile ( ==> vp_persist :: < T > (
//@sub? super :: fs :: write_metadata ( ==> vp_write_metadata :: < T > (
//@sub? super :: fs :: metadata_path ( ==> vp_metadata_path (
//@sub? * version ==> version
//@sub? fs :: remove_file ( ==> vp_remove :: < T , _ > (
//@sub? in T :: versions ( ) . previous ==> in vp_copy ( T :: versions ( ) . previous )
//@sub? std :: io :: ErrorKind ==> io :: ErrorKind
//@ret r
//@start
    proof { lemma_under(T::vs().current, *key); }
//@spec
    requires lawful(T::vs().current, T::vs().fallbacks@, T::vs().previous@)
//@loop 0
    invariant lawful(T::vs().current, T::vs().fallbacks@, T::vs().previous@), vp_v0@ == T::vs().previous@, vp_i0 <= vp_v0@.len()
    decreases vp_v0@.len() - vp_i0
//@before? let item_path
    proof { theorem_directories(*key, *key, version, T::vs().current); }
//@end
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::lookup_local_cache as=lookup nocomb stub=spawn_refresh,clone,load,and_then while=0
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub? std :: iter :: once ( ==> vp_once (
//@sub? . fallbacks . iter ( ) . copied ( ) ==> . fallbacks
//@sub? item . and_then ( | byteview | request . load ( byteview ) ) ==> item . vp_and_load ( & request )
//@ret r
//@spec
    requires lawful(T::vs().current, T::vs().fallbacks@, T::vs().previous@)
    ensures (match r {
        None => !self.config.has_dir() || forall|k: int| 0 <= k < order(T::vs()).len() ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[k]),
        Some(item) => self.config.has_dir() && exists|k: int| 0 <= k < order(T::vs()).len() && served(request, item.data.contents, self.config, *cache_key, #[trigger] order(T::vs())[k])
            && forall|j: int| 0 <= j < k ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[j]) })
//@loop 0
    invariant self.config.has_dir(), vp_v0@ == order(T::vs()), vp_i0 <= vp_v0@.len(), forall|j: int| 0 <= j < vp_i0 ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[j])
    decreases vp_v0@.len() - vp_i0
//@before? self . store_in_shared_cache
    proof { ax_of_version(self.config, *cache_key, version); }
//@end
    #[verifier::external_body] fn compute(&self, q: T, k: &CacheKey, is_refresh: bool) -> CacheEntry<T::Item> { unimplemented!() }
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::lookup_or_compute async nocomb stub=compute,clone
//@sub? . lookup_local_cache ( ==> . lookup (
//@sub? . bind_hub ( Hub :: new_from_top ( Hub :: current ( ) ) ) ==>
//@ret r
//@spec
    requires lawful(T::vs().current, T::vs().fallbacks@, T::vs().previous@)
    // what is on disk is served; only without it there is a computation
    ensures self.config.has_dir() ==> (forall|k: int| 0 <= k < order(T::vs()).len() ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[k]))
        || exists|k: int| 0 <= k < order(T::vs()).len() && served(request, r.data.contents, self.config, *cache_key, #[trigger] order(T::vs())[k]) && forall|j: int| 0 <= j < k ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[j])
//@end
}
}
fn main() {}
