//! Background refreshes: how many run, for which items, and what is left when they end
use futures::future::{BoxFuture, FutureExt};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};
use symbolic::common::ByteView;
use symbolicator_service::caches::versions::*;
use symbolicator_service::caching::*;
use symbolicator_service::config::*;
use symbolicator_service::types::Scope;
use vp_svc::*;
#[derive(Clone, Copy, Debug, PartialEq)] enum End { Good, Missing, Panic, Internal }
type Gate = tokio::sync::oneshot::Sender<End>;
/// the computations that are running: which cache, which key, on behalf of which request
static RUN: Mutex<Vec<(usize, usize, usize, Option<Gate>)>> = Mutex::new(vec![]);
static OPEN: AtomicIsize = AtomicIsize::new(0); static MOST: AtomicIsize = AtomicIsize::new(0); static ALL: AtomicIsize = AtomicIsize::new(0);
struct Leave(usize, usize);
impl Drop for Leave { fn drop(&mut self) { let mut r = RUN.lock().unwrap_or_else(|e| e.into_inner()); if let Some(i) = r.iter().position(|x| (x.0, x.1) == (self.0, self.1)) { r.remove(i); } } }
#[derive(Clone)] struct Q { cache: usize, key: usize, serial: usize }
impl CacheItemRequest for Q { type Item = Arc<String>;
    const VERSIONS: CacheVersions = CacheVersions { current: CacheVersion::new(5, CachePathFormat::V2), fallbacks: &[CacheVersion::new(4, CachePathFormat::V1)], previous: &[CacheVersion::new(4, CachePathFormat::V1)] };
    fn compute<'a>(&'a self, t: &'a mut tempfile::NamedTempFile) -> BoxFuture<'a, CacheContents> { async move {
        if self.cache == 9 { let n = OPEN.fetch_add(1, SeqCst) + 1; MOST.fetch_max(n, SeqCst); ALL.fetch_add(1, SeqCst); tokio::time::sleep(Duration::from_micros(300)).await; OPEN.fetch_sub(1, SeqCst); std::fs::write(t.path(), b"new").unwrap(); return Ok(()); }
        let (tx, rx) = tokio::sync::oneshot::channel(); RUN.lock().unwrap().push((self.cache, self.key, self.serial, Some(tx))); let _l = Leave(self.cache, self.key);
        let how = rx.await.unwrap_or(End::Internal);
        match how { End::Good => { std::fs::write(t.path(), format!("new {} by {}", self.key, self.serial)).unwrap(); Ok(()) } End::Missing => Err(CacheError::NotFound), End::Internal => Err(CacheError::InternalError), End::Panic => panic!("computation") } }.boxed() }
    fn load(&self, b: ByteView<'static>) -> CacheContents<Self::Item> { Ok(Arc::new(String::from_utf8_lossy(&b).into_owned())) } }
fn key(n: usize) -> CacheKey { let mut b = CacheKey::scoped_builder(&Scope::Global); use std::fmt::Write; write!(b, "refresh {n}").unwrap(); b.build() }
fn runs() -> Vec<(usize, usize, usize)> { let mut v: Vec<_> = RUN.lock().unwrap().iter().map(|r| (r.0, r.1, r.2)).collect(); v.sort(); v }
async fn settle() { for _ in 0..40 { tokio::task::yield_now().await } }
fn outdated(dir: &PathBuf, k: usize) { let cur = dir.join(key(k).cache_path(Q::VERSIONS.current)); for p in [cur.with_extension("metadata"), cur] { let _ = std::fs::remove_file(p); }
    let p = dir.join(key(k).cache_path(Q::VERSIONS.fallbacks[0])); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, format!("old {k}")).unwrap(); filetime::set_file_mtime(&p, filetime::FileTime::from_system_time(vpclock::system())).unwrap(); }
fn show<T: std::fmt::Display>(r: &CacheContents<T>) -> String { match r { Ok(b) => b.to_string(), Err(e) => format!("{e:?}") } }
fn main() {
    let mut rep = Rep::new("two caches that share a limit of 1 to 3 refreshes, four items each, of which an outdated version is on disk: random histories of requests, of refreshes that end well, with an error, with an internal error or with a panic, and of runtimes shut down with refreshes running; after every step the refreshes that run, the places left, what was served and what is in memory; then many requests at once on several threads: how many refreshes ran at the same time, and that all places are free afterwards; distinct by history");
    let sc = Scratch::new("c33"); let mut rng = rng::Rng::new(seed() ^ 0x33); let t0 = SystemTime::now(); 
    let conf = |base: &PathBuf| { let mut c = Config::default(); c.cache_dir = Some(base.join("cache")); c };
    let mk = |c: &Config, n: CacheName, p: &Arc<AtomicIsize>| Cache::from_config(n, c, CacheConfig::Derived(DerivedCacheConfig { max_unused_for: None, retry_misses_after: Some(Duration::from_secs(1800)), retry_misses_after_public: Some(Duration::from_secs(1800)), ..Default::default() }), p.clone(), 100_000).unwrap();
    'history: for h in 0..if thorough() { 1500 } else { 150 } {
        vpclock::freeze(t0); RUN.lock().unwrap().clear();
        let base = sc.0.join(format!("h{h}")); let c = conf(&base); let limit = 1 + rng.below(3) as isize; let places = Arc::new(AtomicIsize::new(limit));
        let names = [CacheName::Symcaches, CacheName::Cficaches]; let dirs: Vec<PathBuf> = names.iter().map(|n| base.join("cache").join(n.as_ref())).collect();
        let mut rt_ = Some(rt()); let sref = SharedCacheService::new(None, rt_.as_ref().unwrap().handle().clone());
        let cachers: Vec<Cacher<Q>> = names.iter().map(|n| Cacher::new(mk(&c, *n, &places), sref.clone())).collect();
        for d in &dirs { for k in 0..4 { outdated(d, k) } }
        let mut model: BTreeMap<(usize, usize), usize> = BTreeMap::new(); let mut log = vec![format!("limit {limit}")];
        for step in 0..14 {
            let op = rng.below(9);
            if op < 5 || model.is_empty() { // an item whose copy in memory has lapsed
                let (a, k) = (rng.below(2), rng.below(4)); vpclock::advance(Duration::from_secs(2 * 3600));
                log.push(format!("item {k} of cache {a} is asked for (request {step})"));
                let got = guarded(|| rt_.as_ref().unwrap().block_on(async { let r = cachers[a].compute_memoized(Q { cache: a, key: k, serial: step }, key(k)).await.into_contents(); settle().await; r }));
                let got = match got { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{}: {e}", log.join("; "))); continue 'history } };
                if show(&got) != format!("old {k}") { rep.fail("served", format!("{}: got `{}`, but the outdated item is on disk", log.join("; "), show(&got))); }
                if !model.contains_key(&(a, k)) && (model.len() as isize) < limit { model.insert((a, k), step); }
            } else if op < 8 {
                let i = rng.below(model.len()); let (&(a, k), &s) = model.iter().nth(i).unwrap(); let how = [End::Good, End::Good, End::Missing, End::Internal, End::Panic][rng.below(5)];
                log.push(format!("the refresh of item {k} of cache {a} ends: {how:?}"));
                let tx = RUN.lock().unwrap().iter_mut().find(|r| (r.0, r.1) == (a, k)).and_then(|r| r.3.take());
                let Some(tx) = tx else { rep.fail("running", format!("{}: it does not run", log.join("; "))); continue 'history };
                model.remove(&(a, k));
                let _ = guarded(|| rt_.as_ref().unwrap().block_on(async { let _ = tx.send(how); for i in 0..600 { settle().await; if i > 2 && places.load(SeqCst) == limit - model.len() as isize { break } tokio::time::sleep(Duration::from_micros(200)).await; } settle().await; }));
                if matches!(how, End::Good | End::Missing) { // what it made is in memory
                    let got = guarded(|| rt_.as_ref().unwrap().block_on(async { cachers[a].compute_memoized(Q { cache: a, key: k, serial: 900 + step }, key(k)).await.into_contents() }));
                    let want = if how == End::Good { format!("new {k} by {s}") } else { "NotFound".into() };
                    match got { Ok(g) => if show(&g) != want { rep.fail("memory", format!("{}: afterwards the item in memory is `{}`, expected `{want}`", log.join("; "), show(&g))); } Err(e) => rep.fail("panic", format!("{}: {e}", log.join("; "))) }
                }
                outdated(&dirs[a], k);
            } else { log.push("the runtime is shut down and started again".into()); drop(rt_.take()); rt_ = Some(rt()); model.clear(); }
            let want: Vec<(usize, usize, usize)> = model.iter().map(|(&(a, k), &s)| (a, k, s)).collect(); let have = runs();
            if have != want { rep.fail("running", format!("{}: refreshes (cache, item, request) that run: {have:?}, expected {want:?}", log.join("; "))); continue 'history; }
            let left = places.load(SeqCst); if left != limit - model.len() as isize { rep.fail("places", format!("{}: {left} places are left, with {} refreshes running", log.join("; "), model.len())); continue 'history; }
        }
        rep.case(log.join(";")); if h % 40 == 3 { rep.sample(log.join("; ")); }
        drop(rt_.take());
        if places.load(SeqCst) != limit { rep.fail("places", format!("{}: after the end {} of {limit} places are left", log.join("; "), places.load(SeqCst))); }
        let _ = std::fs::remove_dir_all(&base);
    }
    // the places of the configured caches
    for (down, der) in [(0isize, 0isize), (-3, 1), (1, -1), (7, 2), (2, 7), (isize::MAX, isize::MIN), (50, 20)] { rep.case(("groups", down, der));
        let base = sc.0.join("groups"); let mut c = conf(&base); c.caches.downloaded.max_lazy_redownloads = down; c.caches.derived.max_lazy_recomputations = der; let k = Caches::from_config(&c).unwrap();
        for (group, cs, n) in [("downloaded", vec![&k.objects, &k.auxdifs, &k.il2cpp, &k.sourcefiles, &k.proguard, &k.source_index], down.max(1)), ("derived", vec![&k.object_meta, &k.symcaches, &k.cficaches, &k.ppdb_caches, &k.sourcemap_caches], der.max(1))] {
            let first = cs[0].max_lazy_refreshes(); if first.load(SeqCst) != n { rep.fail("groups", format!("max_lazy_redownloads {down}, max_lazy_recomputations {der}: the {group} caches have {} places, expected {n}", first.load(SeqCst))); }
            for x in &cs { if !Arc::ptr_eq(&first, &x.max_lazy_refreshes()) { rep.fail("groups", format!("the cache {} does not share the places of the {group} caches", x.name())); } } }
        if Arc::ptr_eq(&k.objects.max_lazy_refreshes(), &k.symcaches.max_lazy_refreshes()) { rep.fail("groups", "downloaded and derived caches share their places".into()); }
        let _ = std::fs::remove_dir_all(&base); }
    // the same with no limit left, and many requests at once
    vpclock::freeze(t0);
    for limit in [0isize, 1, 2, 5] { for round in 0..if thorough() { 40 } else { 6 } {
        let base = sc.0.join(format!("m{limit}-{round}")); let c = conf(&base); let places = Arc::new(AtomicIsize::new(limit)); let dir = base.join("cache").join(CacheName::Symcaches.as_ref());
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
        let cacher: Cacher<Q> = Cacher::new(mk(&c, CacheName::Symcaches, &places), SharedCacheService::new(None, rt.handle().clone()));
        for k in 0..40 { outdated(&dir, k) } MOST.store(0, SeqCst); ALL.store(0, SeqCst); OPEN.store(0, SeqCst);
        let all = |from: usize, to: usize| { let mut js = vec![]; for k in from..to { for s in 0..2 { let c = cacher.clone(); js.push(rt.spawn(async move { c.compute_memoized(Q { cache: 9, key: k, serial: s }, key(k)).await.into_contents().map(|a| a.to_string()).unwrap_or_default() })); } }
            let r: Vec<String> = rt.block_on(async { let mut o = vec![]; for j in js { o.push(j.await.unwrap()); } for _ in 0..3000 { if places.load(SeqCst) == limit && OPEN.load(SeqCst) == 0 { break } tokio::time::sleep(Duration::from_micros(200)).await; } o }); r };
        for (a, b) in [(0, 30), (30, 40)] { let r = all(a, b); rep.case(("many", limit, round, a));
            for (i, s) in r.iter().enumerate() { if *s != format!("old {}", a + i / 2) && s != "new" { rep.fail("served", format!("many requests at once, limit {limit}: item {} is `{s}`", a + i / 2)); } }
            let name = format!("items {a} to {b} asked for at once, limit {limit}: {} refreshes, up to {} at a time, {} places afterwards", ALL.load(SeqCst), MOST.load(SeqCst), places.load(SeqCst));
            if MOST.load(SeqCst) > limit { rep.fail("running", format!("{name}: more than the limit")); }
            if limit > 0 && ALL.swap(0, SeqCst) == 0 { rep.fail("running", format!("{name}: none was started")); }
            if places.load(SeqCst) != limit { rep.fail("places", name.clone()); }
            if round == 0 && a == 0 { rep.sample(name); } }
        drop(rt); let _ = std::fs::remove_dir_all(&base);
    } }
    rep.done();
}
