use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- which directory belongs to which cache, and how it is configured --------------------------------
#[derive(Clone, Copy)]
//@item crates/symbolicator-service/src/caching/config.rs CacheName derive=
pub open spec fn dir_name(n: CacheName) -> Str { match n {
    CacheName::Objects => "objects"@, CacheName::ObjectMeta => "object_meta"@, CacheName::Auxdifs => "auxdifs"@, CacheName::Il2cpp => "il2cpp"@, CacheName::Symcaches => "symcaches"@, CacheName::Cficaches => "cficaches"@,
    CacheName::PpdbCaches => "ppdb_caches"@, CacheName::SourceMapCaches => "sourcemap_caches"@, CacheName::SourceFiles => "sourcefiles"@, CacheName::Diagnostics => "diagnostics"@, CacheName::Proguard => "proguard"@, CacheName::SourceIndex => "source_index"@ } }
impl CacheName {
//@fn crates/symbolicator-service/src/caching/config.rs <AsRef for CacheName>::as_ref as=as_ref
//@ret r
//@spec
    ensures r@ == dir_name(*self)
//@end
}
/// two caches never share a directory, nor do they share that of the temporary files
pub proof fn theorem_own_directory(a: CacheName, b: CacheName)
    ensures dir_name(a) == dir_name(b) ==> a == b, dir_name(a) != "tmp"@
{
    reveal_strlit("objects"); reveal_strlit("object_meta"); reveal_strlit("auxdifs"); reveal_strlit("il2cpp"); reveal_strlit("symcaches"); reveal_strlit("cficaches"); reveal_strlit("ppdb_caches"); reveal_strlit("sourcemap_caches"); reveal_strlit("sourcefiles"); reveal_strlit("diagnostics"); reveal_strlit("proguard"); reveal_strlit("source_index"); reveal_strlit("tmp");
    let x = dir_name(a); let y = dir_name(b);
    assert(x.len() == y.len() && a != b ==> x[0] != y[0] || x[1] != y[1] || x[6] != y[6] || x[7] != y[7]);
}
/// the configurations of the kinds of caches; a conversion keeps the kind and the values
#[derive(Clone, Copy)] #[verifier::external_body] pub struct DownloadedRest { r: u8 }
#[derive(Clone, Copy)] pub struct DownloadedCacheConfig { pub max_lazy_redownloads: isize, pub rest: DownloadedRest }
#[derive(Clone, Copy)] pub struct DerivedCacheConfig { pub max_lazy_recomputations: isize, pub rest: DownloadedRest }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct DiagnosticsCacheConfig { r: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct IndexCacheConfig { r: u8 }
#[derive(Clone, Copy)]
//@item crates/symbolicator-service/src/config.rs CacheConfig derive=
pub trait VpInto: Sized { spec fn cv(self) -> CacheConfig; fn vp_into(self) -> (r: CacheConfig) ensures r == self.cv(); }
impl VpInto for DownloadedCacheConfig { open spec fn cv(self) -> CacheConfig { CacheConfig::Downloaded(self) }
fn vp_into(self) -> CacheConfig { CacheConfig::Downloaded(self) }
}
impl VpInto for DerivedCacheConfig { open spec fn cv(self) -> CacheConfig { CacheConfig::Derived(self) }
fn vp_into(self) -> CacheConfig { CacheConfig::Derived(self) }
}
impl VpInto for IndexCacheConfig { open spec fn cv(self) -> CacheConfig { CacheConfig::Index(self) }
fn vp_into(self) -> CacheConfig { CacheConfig::Index(self) }
}
impl VpInto for DiagnosticsCacheConfig { open spec fn cv(self) -> CacheConfig { CacheConfig::Diagnostics(self) }
fn vp_into(self) -> CacheConfig { CacheConfig::Diagnostics(self) }
}
pub struct InMemoryCacheConfig { pub object_meta_capacity: u64, pub cficaches_capacity: u64, pub source_index_capacity: u64 }
//@item crates/symbolicator-service/src/config.rs CacheConfigs derive=
/// a directory: a name below the configured cache directory
#[verifier::external_body] pub struct PathBuf { p: u8 }
pub uninterp spec fn below(b: PathBuf, n: Str) -> PathBuf;
impl PathBuf { #[verifier::external_body] pub fn join(&self, n: &str) -> (r: PathBuf) ensures r == below(*self, n@) { unimplemented!() } }
pub struct Config { pub cache_dir: Option<PathBuf>, pub caches: CacheConfigs }
impl Config {
//@fn crates/symbolicator-service/src/config.rs Config::cache_dir
//@sub? fn cache_dir < P > ==> fn cache_dir
//@sub? dir : P ==> dir : & str
//@sub? -> Option < PathBuf > where P : AsRef < Path > , ==> -> Option < PathBuf >
//@sub? self . cache_dir . as_ref ( ) . map ( | base | base . join ( dir ) ) ==> match self . cache_dir . as_ref ( ) { Some ( base ) => Some ( base . join ( dir ) ) , None => None }
//@ret r
//@spec
    ensures match self.cache_dir { Some(b) => r == Some(below(b, dir@)), None => r is None }
//@end
}
pub mod io { pub struct Error { pub e: u8 } pub type Result<T> = core::result::Result<T, Error>; }
pub uninterp spec fn exists_now(d: PathBuf) -> bool;
#[verifier::external_body] pub fn vp_create_dir_all(d: &PathBuf) -> (r: io::Result<()>) ensures r is Ok ==> exists_now(*d) { unimplemented!() }
#[verifier::external_body] pub struct SystemTime { t: u8 }
impl SystemTime { #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() } }
/// a counter of places shared by its clones
#[verifier::external_body] pub struct Counter { a: u8 }
impl Counter { pub uninterp spec fn limit(&self) -> isize;
    #[verifier::external_body] pub fn clone(&self) -> (r: Counter) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vp_counter(n: isize) -> (r: Counter) ensures r.limit() == n { unimplemented!() }
#[verifier::external_body] pub fn vp_none() -> (r: Counter) ensures r.limit() == 0 { unimplemented!() }
pub trait VpMax { fn vp_max(self, o: isize) -> isize; }
impl VpMax for isize { fn vp_max(self, o: isize) -> (r: isize) ensures r == (if self > o { self } else { o }) { if self > o { self } else { o } } }
//@item crates/symbolicator-service/src/caching/fs.rs Cache derive=
//@isub Arc < AtomicIsize > ==> Counter
pub open spec fn made(c: Cache, n: CacheName, g: &Config, k: CacheConfig) -> bool {
    c.name == n && c.cache_config == k && (match g.cache_dir { Some(b) => c.cache_dir == Some(below(b, dir_name(n))) && exists_now(c.cache_dir->0) && c.tmp_dir == Some(below(b, "tmp"@)), None => c.cache_dir is None && c.tmp_dir is None })
}
impl Cache {
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::from_config stub=create_dir_all,now
//@sub? std :: fs :: create_dir_all ==> vp_create_dir_all
//@sub? Arc < AtomicIsize > ==> Counter
//@ret r
//@spec
    ensures r matches Ok(c) ==> made(c, name, config, cache_config) && c.max_lazy_refreshes == max_lazy_refreshes && c.in_memory_capacity == in_memory_capacity
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::max_lazy_refreshes stub=clone
//@sub? Arc < AtomicIsize > ==> Counter
//@ret r
//@spec
    ensures r == self.max_lazy_refreshes
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::name as=the_name
//@ret r
//@spec
    ensures r == self.name
//@end
}
//@item crates/symbolicator-service/src/caching/mod.rs Caches derive=
pub open spec fn at_least_one(n: isize) -> isize { if n > 1 { n } else { 1 } }
impl Caches {
//@fn crates/symbolicator-service/src/caching/mod.rs Caches::from_config stub=into,clone,new,max,default
//@sub Arc :: new ( AtomicIsize :: new ==> ( vp_counter
//@sub . max ( ==> . vp_max (
//@sub . into ( ) ==> . vp_into ( )
//@sub Default :: default ( ) ==> vp_none ( )
//@ret r
//@spec
    // every cache has the directory of its own name, the rules of its kind, and the places of its group
    ensures r matches Ok(s) ==> {
        let down = CacheConfig::Downloaded(config.caches.downloaded); let der = CacheConfig::Derived(config.caches.derived);
        &&& made(s.objects, CacheName::Objects, config, down) && made(s.auxdifs, CacheName::Auxdifs, config, down) && made(s.il2cpp, CacheName::Il2cpp, config, down) && made(s.sourcefiles, CacheName::SourceFiles, config, down) && made(s.proguard, CacheName::Proguard, config, down)
        &&& made(s.object_meta, CacheName::ObjectMeta, config, der) && made(s.symcaches, CacheName::Symcaches, config, der) && made(s.cficaches, CacheName::Cficaches, config, der) && made(s.ppdb_caches, CacheName::PpdbCaches, config, der) && made(s.sourcemap_caches, CacheName::SourceMapCaches, config, der)
        &&& made(s.diagnostics, CacheName::Diagnostics, config, CacheConfig::Diagnostics(config.caches.diagnostics)) && made(s.source_index, CacheName::SourceIndex, config, CacheConfig::Index(config.caches.index))
        &&& s.objects.max_lazy_refreshes.limit() == at_least_one(config.caches.downloaded.max_lazy_redownloads)
        &&& s.auxdifs.max_lazy_refreshes == s.objects.max_lazy_refreshes && s.il2cpp.max_lazy_refreshes == s.objects.max_lazy_refreshes && s.sourcefiles.max_lazy_refreshes == s.objects.max_lazy_refreshes && s.proguard.max_lazy_refreshes == s.objects.max_lazy_refreshes && s.source_index.max_lazy_refreshes == s.objects.max_lazy_refreshes
        &&& s.object_meta.max_lazy_refreshes.limit() == at_least_one(config.caches.derived.max_lazy_recomputations)
        &&& s.symcaches.max_lazy_refreshes == s.object_meta.max_lazy_refreshes && s.cficaches.max_lazy_refreshes == s.object_meta.max_lazy_refreshes && s.ppdb_caches.max_lazy_refreshes == s.object_meta.max_lazy_refreshes && s.sourcemap_caches.max_lazy_refreshes == s.object_meta.max_lazy_refreshes
        &&& s.diagnostics.max_lazy_refreshes.limit() == 0
    }
//@end
}
}
fn main() {}
