//! What Cacher::compute stores: after exchanges with a shared cache that break off, and when the process runs out of file descriptors
use futures::future::{BoxFuture, FutureExt};
use std::os::fd::AsRawFd;
use std::sync::atomic::AtomicIsize;
use std::sync::Arc;
use std::time::Duration;
use symbolic::common::ByteView;
use symbolicator_service::caches::versions::*;
use symbolicator_service::caching::*;
use symbolicator_service::config::*;
use symbolicator_service::types::Scope;
use vp_svc::*;
#[derive(Clone, Debug)] struct Req(Result<Vec<u8>, CacheError>, bool);
impl CacheItemRequest for Req { type Item = Arc<Vec<u8>>; const VERSIONS: CacheVersions = OBJECTS_CACHE_VERSIONS;
    fn compute<'a>(&'a self, t: &'a mut tempfile::NamedTempFile) -> BoxFuture<'a, CacheContents> { async move { use std::io::Write; match &self.0 { Ok(b) => { t.as_file_mut().write_all(b)?; Ok(()) } Err(e) => { if self.1 { t.as_file_mut().write_all(b"a part of the item, and then the error that ended it")?; } Err(e.clone()) } } }.boxed() }
    fn load(&self, b: ByteView<'static>) -> CacheContents<Self::Item> { Ok(Arc::new(b.to_vec())) } }
extern "C" { fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
fn main() {
    let mut rep = Rep::new("items and errors of every kind computed after a fetch from a shared cache that breaks off after any number of bytes, is refused or late: answered as computed, the same again from disk, and the file holds nothing else; then with room for 0 to 5 more file descriptors, with and without a shared cache: an internal error leaves no entry, any other answer is the one found on disk; distinct by case");
    let sc = Scratch::new("c11s"); let rt = rt_paused(); let mut k = 0usize;
    let key = |n: usize| { let mut b = CacheKey::scoped_builder(&Scope::Global); use std::fmt::Write; write!(b, "item {n}").unwrap(); b.build() };
    let results: Vec<Result<Vec<u8>, CacheError>> = vec![Ok(b"short".to_vec()), Ok(vec![b'x'; 4000]), Ok(vec![b'y'; 200_000]), Err(CacheError::NotFound), Err(CacheError::DownloadError("d".into())), Err(CacheError::Malformed("m".into())), Err(CacheError::PermissionDenied("".into())), Err(CacheError::Unsupported("u".into())), Err(CacheError::Timeout(Duration::from_secs(3))), Err(CacheError::InternalError)];
    let cache = |base: &std::path::Path| { let mut c = Config::default(); c.cache_dir = Some(base.join("cache")); Cache::from_config(CacheName::Objects, &c, CacheConfig::Downloaded(DownloadedCacheConfig { max_unused_for: None, retry_misses_after: None, retry_misses_after_public: None, retry_malformed_after: None, max_lazy_redownloads: 1 }), Arc::new(AtomicIsize::new(1)), 100_000).unwrap() };
    let ask = |base: &std::path::Path, shared: Option<serde_json::Value>, q: &Req, n: usize, limit: Option<u64>| { let cache = cache(base); guarded(|| rt.block_on(async {
        let on = shared.is_some(); let sref = SharedCacheService::new(shared.map(|s| serde_json::from_value(s).unwrap()), tokio::runtime::Handle::current());
        if on { for _ in 0..1000 { if sref.get().is_some() { break } tokio::task::yield_now().await; } assert!(sref.get().is_some(), "no shared cache"); }
        let cacher: Cacher<Req> = Cacher::new(cache, sref); let mut old = [0u64; 2];
        if let Some(extra) = limit { let next = std::fs::File::open("/dev/null").unwrap().as_raw_fd() as u64; unsafe { getrlimit(7, &mut old); setrlimit(7, &[next + extra, old[1]]); } }
        let r = cacher.compute_memoized(q.clone(), key(n)).await.into_contents().map(|b| b.to_vec());
        if limit.is_some() { unsafe { setrlimit(7, &old); } } r })) };
    let file = |base: &std::path::Path, n: usize| std::fs::read(base.join("cache").join(CacheName::Objects.as_ref()).join(key(n).cache_path(OBJECTS_CACHE_VERSIONS.current))).ok();
    let show = |r: &Result<Result<Vec<u8>, CacheError>, String>| match r { Ok(Ok(b)) => format!("{} bytes `{}`", b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])), o => format!("{o:?}") };
    let gcs = || Some(serde_json::json!({"max_concurrent_uploads": 5, "max_upload_queue_size": 9, "gcs": {"bucket": "b", "service_account_path": "/dev/null"}}));
    // a fetch that breaks off
    for (ri, r) in results.iter().enumerate() { for partial in [false, true] { for at in [0usize, 1, 5, 100, 5000, 300_000] { for how in ["broken", "whole", "missing", "refused", "late"] {
        if (how != "broken" && how != "whole") && at != 100 { continue; } if partial && r.is_ok() { continue; } if how == "whole" && at == 0 { continue; }
        k += 1; rep.case((ri, partial, at, how)); let base = sc.0.join(format!("s{k}")); let q = Req(r.clone(), partial);
        reqwest::vp::install(Arc::new(move |_, _| { use reqwest::vp::Reply; match how { "missing" => Reply::status(404, b"no"), "refused" => Reply::status(403, b"no"), "late" => { let mut p = Reply::ok(&vec![b'#'; at]); p.delay = Duration::from_secs(100); p } _ => { let mut p = Reply::ok(&vec![b'#'; at]); if how == "broken" { p.body.push(Err("connection reset".into())); } p } } }));
        let name = format!("{} computed{}, the shared cache's answer is {how}, {at} bytes", show(&Ok(r.clone())), if partial { " after a part was written" } else { "" });
        let want = if how == "whole" { Ok(vec![b'#'; at]) } else { r.clone() };
        let one = ask(&base, gcs(), &q, k, None); let disk = file(&base, k);
        if one != Ok(want.clone()) { rep.fail("served", format!("{name}: got {}", show(&one))); }
        let internal = want == Err(CacheError::InternalError);
        match (&disk, &want) { (Some(d), Ok(b)) if d == b => {}, (Some(_), Err(_)) if !internal => {}, (None, _) if internal => {}, _ => rep.fail("stored", format!("{name}: the file is {}", show(&Ok(disk.clone().ok_or(CacheError::NotFound))))) }
        let two = ask(&base, None, &q, k, None); if two != Ok(want.clone()) { rep.fail("hit-differs", format!("{name}: from disk {}", show(&two))); }
        if k % 40 == 3 { rep.sample(name); } let _ = std::fs::remove_dir_all(&base);
    } } } }
    // no file descriptors
    for (ri, r) in results.iter().enumerate() { for partial in [false, true] { for shared in [0, 1, 2] { for extra in 0..6u64 {
        if partial && r.is_ok() { continue; }
        k += 1; rep.case(("fds", ri, partial, shared, extra)); let base = sc.0.join(format!("f{k}")); let q = Req(r.clone(), partial); let sdir = base.join("shared");
        if shared == 2 { let p = sdir.join(CacheName::Objects.as_ref()).join(key(k).cache_path(OBJECTS_CACHE_VERSIONS.current)); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, b"from the shared cache").unwrap(); }
        let cfg = (shared > 0).then(|| serde_json::json!({"max_concurrent_uploads": 5, "max_upload_queue_size": 9, "filesystem": {"path": sdir}}));
        let name = format!("{} computed{}, {}, room for {extra} file descriptors", show(&Ok(r.clone())), if partial { " after a part was written" } else { "" }, ["no shared cache", "nothing in the shared cache", "the item in the shared cache"][shared]);
        let one = ask(&base, cfg, &q, k, Some(extra)); let disk = file(&base, k);
        let ok = match &one { Ok(Err(CacheError::InternalError)) => { if disk.is_some() { rep.fail("internal-stored", format!("{name}: an internal error, and a file of {} bytes is stored", disk.as_ref().unwrap().len())); } true } Ok(x) => *x == *r || shared == 2 && *x == Ok(b"from the shared cache".to_vec()), Err(_) => false };
        if !ok { rep.fail("served", format!("{name}: got {}", show(&one))); }
        let two = ask(&base, None, &q, k, None); let same = match &one { Ok(Err(CacheError::InternalError)) => two == Ok(r.clone()), _ => two == one };
        if !same { rep.fail("hit-differs", format!("{name}: first {}, then {}", show(&one), show(&two))); }
        if k % 40 == 3 { rep.sample(name); } let _ = std::fs::remove_dir_all(&base);
    } } } }
    rep.done();
}
