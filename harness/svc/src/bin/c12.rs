//! The version tables, the paths of versions, and the order in which versions are looked up, written and removed
use futures::future::{BoxFuture, FutureExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::sync::Arc;
use symbolic::common::ByteView;
use symbolicator_service::caches::versions::*;
use symbolicator_service::caching::*;
use symbolicator_service::config::*;
use symbolicator_service::types::Scope;
use vp_svc::*;
const fn v(n: u32) -> CacheVersion { CacheVersion::new(n, CachePathFormat::V1) }
const fn w(n: u32) -> CacheVersion { CacheVersion::new(n, CachePathFormat::V2) }
static COMPUTED: AtomicIsize = AtomicIsize::new(0);
macro_rules! req { ($n:ident, $t:expr) => {
    #[derive(Clone)] struct $n(&'static str);
    impl CacheItemRequest for $n { type Item = Arc<Vec<u8>>; const VERSIONS: CacheVersions = $t;
        fn compute<'a>(&'a self, t: &'a mut tempfile::NamedTempFile) -> BoxFuture<'a, CacheContents> { async move { COMPUTED.fetch_add(1, SeqCst); match self.0 { "ok" => { std::fs::write(t.path(), b"computed").unwrap(); Ok(()) } "miss" => { std::fs::write(t.path(), b"junk").unwrap(); Err(CacheError::NotFound) } _ => Err(CacheError::InternalError) } }.boxed() }
        fn load(&self, b: ByteView<'static>) -> CacheContents<Self::Item> { Ok(Arc::new(b.to_vec())) } }
} }
req!(R0, CacheVersions { current: w(1), fallbacks: &[], previous: &[] });
req!(R1, CacheVersions { current: w(5), fallbacks: &[v(4)], previous: &[v(1), v(2), v(3), v(4)] });
req!(R2, CacheVersions { current: w(8), fallbacks: &[v(7), v(6)], previous: &[v(1), v(2), v(3), v(4), v(5), v(6), v(7)] });
req!(R3, CacheVersions { current: w(11), fallbacks: &[w(10), v(1)], previous: &[v(1), w(10)] });
req!(R4, CacheVersions { current: v(3), fallbacks: &[v(2), v(1)], previous: &[v(2), v(1)] });
req!(R5, CacheVersions { current: w(12), fallbacks: &[], previous: &[w(1), v(2)] });
fn files(d: &Path) -> Vec<PathBuf> { let mut out = vec![]; let mut t = vec![d.to_path_buf()]; while let Some(p) = t.pop() { if let Ok(r) = std::fs::read_dir(&p) { for e in r.flatten() { if e.path().is_dir() { t.push(e.path()) } else { out.push(e.path().strip_prefix(d).unwrap().to_path_buf()) } } } } out.sort(); out }
fn main() {
    let mut rep = Rep::new("every version table of versions.rs against its documented relations; paths of random keys under many version numbers: below the directory of their version alone; then requests of kinds with six version tables over every subset of versions present on disk (64 of them, 512 in the thorough tier, plus the shared cache holding every version or none, refreshes allowed or not, good, missing and failing items, files used just now or hours ago, metadata present or not): what is served, what is computed, and exactly which files exist afterwards, locally and in the shared cache; distinct by case");
    let tables: Vec<(&str, CacheVersions)> = vec![("cficache", CFICACHE_VERSIONS), ("symcache", SYMCACHE_VERSIONS), ("objects", OBJECTS_CACHE_VERSIONS), ("meta", META_CACHE_VERSIONS), ("ppdb", PPDB_CACHE_VERSIONS), ("sourcemap", SOURCEMAP_CACHE_VERSIONS), ("il2cpp", IL2CPP_CACHE_VERSIONS), ("bitcode", BITCODE_CACHE_VERSIONS), ("sourcefiles", SOURCEFILES_CACHE_VERSIONS), ("bundle index", BUNDLE_INDEX_CACHE_VERSIONS), ("proguard", PROGUARD_CACHE_VERSIONS), ("symstore index", SYMSTORE_INDEX_VERSIONS)];
    let key = |n: usize| { let mut b = CacheKey::scoped_builder(&Scope::Global); use std::fmt::Write; write!(b, "key {n}").unwrap(); b.build() };
    for (n, t) in &tables { rep.case(n);
        for p in t.previous { if p.number >= t.current.number { rep.fail("table", format!("{n}: current version {} is not greater than {} of before", t.current, p)); } }
        for f in t.fallbacks { if f.number == t.current.number { rep.fail("table", format!("{n}: current version {f} is its own fallback")); } if !t.previous.iter().any(|p| p.number == f.number && key(0).cache_path(*p) == key(0).cache_path(*f)) { rep.fail("table", format!("{n}: fallback {f} is not a previous version")); } }
        for x in t.fallbacks.windows(2) { if x[0].number <= x[1].number { rep.fail("table", format!("{n}: fallback {} is listed before {}", x[0], x[1])); } }
    }
    let ns = [0u32, 1, 2, 9, 10, 11, 12, 19, 91, 99, 100, 110, 111, 1234, u32::MAX];
    for i in 0..40 { let k = key(i); for n in ns { for f in [v(n), w(n)] { rep.case(("path", i, n, format!("{f:?}"))); let p = k.cache_path(f);
        let dirs: Vec<&u32> = ns.iter().filter(|m| p.starts_with(&format!("v{m}/"))).collect(); if dirs != [&n] { rep.fail("directory", format!("version {n} has path {p}")); }
        if p.chars().any(|c| !c.is_ascii_alphanumeric() && c != '/') { rep.fail("directory", format!("path {p}")); } } } }
    let sc = Scratch::new("c12"); let rt = rt(); let mut k = 0;
    macro_rules! run { ($t:ident) => {{
        let t = $t::VERSIONS; let mut all: Vec<CacheVersion> = t.previous.to_vec(); all.push(t.current); all.push(w(t.current.number + 1)); all.push(v(77));
        let m = 1usize << all.len(); let step = (m / if thorough() { 512 } else { 64 }).max(1);
        for mask in (0..m).step_by(step).map(|x| if step > 1 { (x + x / step % step) % m } else { x }) { for what in ["ok", "miss", "fail"] { for lazy in [0isize, 5] { for shared in [0, 1, 2] { for md in [false, true] {
            if (shared == 2 || md) && mask % (3 * step) != 0 { continue; }
            k += 1; rep.case((stringify!($t), mask, what, lazy, shared, md));
            let base = sc.0.join(format!("r{k}")); let mut c = Config::default(); c.cache_dir = Some(base.join("cache"));
            let cache = Cache::from_config(CacheName::Symcaches, &c, CacheConfig::Derived(DerivedCacheConfig::default()), Arc::new(AtomicIsize::new(lazy)), 100_000).unwrap();
            let dir = base.join("cache").join(CacheName::Symcaches.as_ref()); let sdir = base.join("shared");
            let key = key(mask);
            let put = |root: &Path, v: CacheVersion, text: String| { let p = root.join(key.cache_path(v)); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, text).unwrap(); if k % 2 == 1 { filetime::set_file_mtime(&p, filetime::FileTime::from_system_time(std::time::SystemTime::now() - std::time::Duration::from_secs(9000))).unwrap(); } p };
            let mut before = std::collections::BTreeMap::new();
            for (i, v) in all.iter().enumerate() { if mask >> i & 1 == 1 { let p = put(&dir, *v, format!("local {v}")); before.insert(p.strip_prefix(&dir).unwrap().to_path_buf(), v.number); if md { std::fs::write(p.with_extension("metadata"), serde_json::to_string(&Metadata { scope: Scope::Global, time_created: std::time::SystemTime::now(), debug: None }).unwrap()).unwrap(); } } }
            if shared == 2 { for v in &all { put(&sdir.join(CacheName::Symcaches.as_ref()), *v, format!("shared {v}")); } }
            let present = |v: &CacheVersion| all.iter().position(|a| a == v).is_some_and(|i| mask >> i & 1 == 1);
            let found = std::iter::once(&t.current).chain(t.fallbacks).find(|v| present(v));
            COMPUTED.store(0, SeqCst);
            let name = format!("versions {} then {:?} (previously {:?}), on disk {:?}, the item {what}, {lazy} refreshes allowed, shared cache {}", t.current, t.fallbacks.iter().map(|v| v.number).collect::<Vec<_>>(), t.previous.iter().map(|v| v.number).collect::<Vec<_>>(), all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, v)| v.number).collect::<Vec<_>>(), ["off", "empty", "full"][shared]);
            let out = guarded(|| rt.block_on(async {
                let sref = SharedCacheService::new((shared > 0).then(|| serde_json::from_value(serde_json::json!({"max_concurrent_uploads": 5, "max_upload_queue_size": 9, "filesystem": {"path": sdir}})).unwrap()), tokio::runtime::Handle::current());
                if shared > 0 { for _ in 0..1000 { if sref.get().is_some() { break } tokio::task::yield_now().await; } assert!(sref.get().is_some(), "no shared cache"); }
                let cacher: Cacher<$t> = Cacher::new(cache, sref);
                let r = cacher.compute_memoized($t(what), key.clone()).await.into_contents();
                let goal = |d: &Path| d.join(key.cache_path(t.current)).exists();
                let writes = (found.is_none() || found.is_some_and(|f| *f != t.current) && lazy > 0) && (what != "fail" || shared == 2);
                for i in 0..if writes { 1000 } else { 3 } { tokio::time::sleep(std::time::Duration::from_micros(100)).await; if i > 0 && goal(&dir) && (shared == 0 || what != "ok" || goal(&sdir.join(CacheName::Symcaches.as_ref()))) { break } }
                r }));
            let out = match out { Ok(o) => o, Err(e) => { rep.fail("panic", format!("{name}: {e}")); continue } };
            let shown = match &out { Ok(b) => String::from_utf8_lossy(b).into_owned(), Err(e) => format!("{e:?}") };
            let fresh = match (shared, what) { (2, _) => format!("shared {}", t.current), (_, "ok") => "computed".into(), (_, "miss") => "NotFound".into(), _ => "InternalError".into() };
            let want = match found { Some(v) => format!("local {v}"), None => fresh.clone() };
            if shown != want { rep.fail("served", format!("{name}: got `{shown}`, expected `{want}`")); }
            let refresh = found.is_some_and(|f| *f != t.current) && lazy > 0;
            let writes = (found.is_none() || refresh) && (what != "fail" || shared == 2);
            // afterwards: the current version (if written or there before), and what is of neither this nor a previous version
            let have: std::collections::BTreeSet<PathBuf> = files(&dir).into_iter().collect(); let mut expect = std::collections::BTreeSet::new();
            for (p, n) in &before { let prev = t.previous.iter().any(|v| v.number == *n); if !(writes && prev) { expect.insert(p.clone()); if md { expect.insert(p.with_extension("metadata")); } } }
            if writes { let p = PathBuf::from(key.cache_path(t.current)); expect.insert(p.with_extension("metadata")); expect.insert(p); }
            if have != expect { rep.fail("files", format!("{name}: afterwards there are {have:?}, expected {expect:?}")); }
            if writes { let b = std::fs::read(dir.join(key.cache_path(t.current))).unwrap_or_default(); let b = String::from_utf8_lossy(&b).into_owned(); let w = if fresh == "NotFound" { String::new() } else { fresh.clone() }; if b != w { rep.fail("written", format!("{name}: the current version holds `{b}`, expected `{w}`")); } }
            for (p, n) in &before { if have.contains(p) && !(writes && *n == t.current.number) { let b = std::fs::read(dir.join(p)).unwrap(); if b != format!("local {n}").as_bytes() { rep.fail("overwritten", format!("{name}: the file of version {n} became {:?}", String::from_utf8_lossy(&b))); } } }
            // the shared cache
            let sfiles: Vec<PathBuf> = files(&sdir).into_iter().filter(|p| !p.components().any(|c| c.as_os_str() == ".tmp")).collect(); let cur = Path::new(CacheName::Symcaches.as_ref()).join(key.cache_path(t.current));
            for p in &sfiles { if *p == cur { let b = String::from_utf8_lossy(&std::fs::read(sdir.join(p)).unwrap()).into_owned(); if shared == 1 && b != "computed" && b != format!("local {}", t.current) { rep.fail("shared", format!("{name}: `{b}` was stored as the current version in the shared cache")); } if shared == 2 && b != format!("shared {}", t.current) && b != format!("local {}", t.current) { rep.fail("shared", format!("{name}: `{b}` replaced the current version in the shared cache")); } } else if shared == 1 { rep.fail("shared", format!("{name}: {p:?} was stored in the shared cache")); } }
            if shared == 1 && writes && what == "ok" && !sfiles.contains(&cur) { rep.fail("shared", format!("{name}: the computed item is not in the shared cache")); }
            if k % 700 == 9 { rep.sample(format!("{name}: {shown}")); }
            let _ = std::fs::remove_dir_all(&base);
        } } } } }
    }} }
    run!(R0); run!(R1); run!(R2); run!(R3); run!(R4); run!(R5);
    rep.done();
}
