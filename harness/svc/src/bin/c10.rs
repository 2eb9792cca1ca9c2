//! The life of cache entries on disk and in memory, under a clock set by hand
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicIsize, AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use filetime::FileTime;
use symbolicator_service::caching::{Cache, CacheError, CacheName, ExpirationTime};
use symbolicator_service::config::*;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::*;
use vp_svc::*;
const H: u64 = 3600;
fn s(n: u64) -> Duration { Duration::from_secs(n) }
fn configs() -> Vec<CacheConfig> {
    let mut v = vec![];
    let vals = [None, Some(s(0)), Some(Duration::from_millis(1500)), Some(s(600)), Some(s(H)), Some(s(24 * H)), Some(s(7 * 24 * H)), Some(s(u64::MAX)), Some(Duration::MAX)];
    for a in vals { for (b, c, d) in [(Some(s(H)), Some(s(24 * H)), Some(s(24 * H))), (Some(s(24 * H)), Some(s(H)), Some(s(600))), (None, Some(s(600)), None), (Some(s(600)), None, Some(s(0))), (Some(s(0)), Some(s(0)), Some(Duration::MAX)), (Some(Duration::MAX), Some(s(u64::MAX)), Some(s(u64::MAX)))] {
        v.push(CacheConfig::Downloaded(DownloadedCacheConfig { max_unused_for: a, retry_misses_after: b, retry_misses_after_public: c, retry_malformed_after: d, max_lazy_redownloads: 1 }));
        v.push(CacheConfig::Derived(DerivedCacheConfig { max_unused_for: a, retry_misses_after: b, retry_misses_after_public: c, retry_malformed_after: d, max_lazy_recomputations: 1 }));
        v.push(CacheConfig::Index(IndexCacheConfig { max_unused_for: a, retry_misses_after: b, retry_misses_after_public: c, retry_malformed_after: d, max_lazy_recomputations: 1 }));
    }
        v.push(CacheConfig::Diagnostics(DiagnosticsCacheConfig { retention: a })); }
    v
}
fn periods(c: &CacheConfig) -> [Option<Duration>; 4] { match c { CacheConfig::Downloaded(x) => [x.max_unused_for, x.retry_misses_after, x.retry_misses_after_public, x.retry_malformed_after], CacheConfig::Derived(x) => [x.max_unused_for, x.retry_misses_after, x.retry_misses_after_public, x.retry_malformed_after], CacheConfig::Index(x) => [x.max_unused_for, x.retry_misses_after, x.retry_misses_after_public, x.retry_malformed_after], CacheConfig::Diagnostics(x) => [x.retention, None, None, None] } }
fn walk(d: &Path, out: &mut Vec<PathBuf>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, out) } else { out.push(p) } } } }
fn main() {
    let mut rep = Rep::new("open_cachefile over every cache configuration drawn from unset, zero, sub-hour, hour, day, week and unrepresentably long periods, every kind of content (good, empty, each error marker), ages around each boundary and in the future, with and without a metadata file of either scope: usable or not, next check, touched or not, and no panic of as_instant; then whole request histories (hits, misses, a restart in between) of source files answered by a scripted server, in memory and on disk, against the configured periods; distinct by case");
    let sc = Scratch::new("c10");
    let now = UNIX_EPOCH + s(1_700_000_000);
    vpclock::freeze(now);
    let file = sc.0.join("entry"); let meta = sc.0.join("entry.metadata");
    let contents: [(&str, &[u8]); 8] = [("good", b"content"), ("good2", b"mal"), ("miss", b""), ("denied", b"permissiondeniedx"), ("timeout", b"timeout1s"), ("download", b"downloaderrorx"), ("unsupported", b"unsupported"), ("malformed", b"malformedx")];
    let mut k = 0usize;
    for c in configs() {
        let cache = Cache::from_config(CacheName::Objects, &Config::default(), c, Arc::new(AtomicIsize::new(1)), 10).unwrap();
        let [idle, miss, public, malformed] = periods(&c);
        for (what, bytes) in contents { std::fs::write(&file, bytes).unwrap();
            for md in [None, Some(Scope::Global), Some(Scope::Scoped("global".into())), Some(Scope::Scoped("1".into()))] {
                let is_public = matches!(md, Some(Scope::Global));
                let good = what.starts_with("good");
                let period = if good { idle } else if what == "malformed" { malformed } else if is_public { public } else { miss };
                // ages around the period and around an hour, in nanoseconds; negative: in the future
                let mut ages: Vec<i128> = vec![0, 1_000_000_000, -1_000_000_000, -90_000_000_000_000, 3_599_000_000_000, 3_600_000_000_000, 3_601_000_000_000, 400 * 24 * 3_600_000_000_000];
                for p in [idle, miss, public, malformed].into_iter().flatten() { let p = p.as_nanos() as i128; if p < 2_000 * 24 * 3_600_000_000_000 { ages.extend([p - 1_000_000_000, p - 1, p, p + 1, p + 1_000_000_000]); } }
                ages.sort(); ages.dedup();
                for age in &ages {
                    // metadata has second precision
                    let whole = md.is_none() || good || age % 1_000_000_000 == 0; if !whole { continue; }
                    for other in [0i128, 5 * 3_600_000_000_000] {
                        // the time that must not matter: the use of a negative entry that has metadata, the age of a good one
                        if md.is_none() && other != 0 { continue; }
                        let at = |a: i128| if a >= 0 { now - Duration::from_nanos(a as u64) } else { now + Duration::from_nanos((-a) as u64) };
                        let (used, written) = if md.is_none() { (*age, *age) } else if good { (*age, other) } else { (other, *age) };
                        k += 1; rep.case((format!("{c:?}"), what, format!("{md:?}"), age, other));
                        let fixed = at(used);
                        filetime::set_file_mtime(&file, FileTime::from_system_time(fixed)).unwrap();
                        match &md { None => { let _ = std::fs::remove_file(&meta); } Some(m) => std::fs::write(&meta, serde_json::to_string(&symbolicator_service::caching::Metadata { scope: m.clone(), time_created: at(written), debug: None }).unwrap()).unwrap() }
                        let name = format!("{c:?}, {what} entry of scope {md:?} used {used} ns and written {written} ns ago");
                        let gone = Duration::from_nanos(age.max(&0).unsigned_abs() as u64);
                        let in_use = std::time::Duration::from_nanos(used.max(0) as u64);
                        let want = if good { period.is_none_or(|p| gone <= p) } else { period.is_none_or(|p| gone < p) && (what != "malformed" || written <= 0) };
                        // from_config ran at `now`: a malformed entry of this process is one written now (or, the clock having been set back, later)
                        let r = guarded(|| cache.open_cachefile(&file));
                        let got = match r { Err(e) => { rep.fail("panic", format!("{name}: {e}")); continue } Ok(Err(e)) => { rep.fail("error", format!("{name}: {e}")); continue } Ok(Ok(g)) => g };
                        if got.is_some() != want { rep.fail(if want { "unusable" } else { "expired-used" }, format!("{name}: usable is {}", got.is_some())); continue }
                        let Some((entry, exp)) = got else { continue };
                        if entry.contents().is_ok() != good { rep.fail("contents", format!("{name}: {:?}", entry.contents())); }
                        let touched = filetime::FileTime::from_last_modification_time(&file.metadata().unwrap()) == FileTime::from_system_time(now) && fixed != now;
                        let want_touch = good && in_use >= s(H);
                        if touched != want_touch { rep.fail("touch", format!("{name}: touched is {touched}")); }
                        let next = if good { if want_touch { s(H) } else { s(H) - in_use } } else { period.unwrap_or(Duration::MAX).saturating_sub(gone) };
                        match (&exp, good) { (ExpirationTime::TouchIn(d), true) | (ExpirationTime::RefreshIn(d), false) if *d == next => {}, _ => { if !(period.is_none() && !good) { rep.fail("next", format!("{name}: {exp:?}, expected {next:?}")) } } }
                        if exp.was_touched() != (good && next == s(H)) { rep.fail("touch", format!("{name}: was_touched is {}", exp.was_touched())); }
                        match guarded(|| exp.as_instant()) { Err(e) => rep.fail("panic", format!("{name}: as_instant: {e}")), Ok(i) => { let d = i.saturating_duration_since(vpclock::instant()); if d > next || (d < next && next < s(100 * 24 * H)) { rep.fail("instant", format!("{name}: checked again in {d:?}, expected {next:?}")) } } }
                        if k % 9999 == 1 { rep.sample(format!("{name}: {exp:?}")); }
                    }
                }
            } }
    }
    let _ = std::fs::remove_file(&file); let _ = std::fs::remove_file(&meta);
    // request histories: a script of waits; the server counts what it is asked
    let asked = Arc::new(AtomicU32::new(0)); let ok = Arc::new(AtomicU32::new(0));
    let (a2, o2) = (asked.clone(), ok.clone());
    reqwest::vp::install(Arc::new(move |_, _| { a2.fetch_add(1, SeqCst); match o2.load(SeqCst) { 0 => reqwest::vp::Reply::ok(b"x"), 1 => reqwest::vp::Reply::status(404, b""), _ => reqwest::vp::Reply::ok(b"\xff\xfe") } }));
    let rt = rt();
    let periods: [(Option<u64>, Option<u64>, Option<u64>, Option<u64>); 6] = [(Some(24 * H), Some(H), Some(24 * H), Some(24 * H)), (Some(10 * H), Some(24 * H), Some(H), Some(2 * H)), (None, None, None, None), (Some(3 * H), Some(600), None, Some(600)), (Some(2 * H), None, Some(600), None), (Some(24 * H), Some(0), Some(0), Some(0))];
    for (pi, (idle, miss, public, bad)) in periods.into_iter().enumerate() { for on_disk in [true, false] { for global in [false, true] { for kind in [0u32, 1, 2] {
        for (si, script) in [vec![300, 300, 300, 3300], vec![3000, 700, 3000, 700, 40000], vec![30 * 60; 12], vec![59 * 60, 59 * 60, 61 * 60, 61 * 60], vec![5 * H, 9 * H, 23 * H, 25 * H], vec![599, 2, 599, 2, 3599, 2], vec![86399, 2, 86399, 2], vec![110 * 60, 130 * 60, 170 * 60], vec![365 * 24 * H]].into_iter().enumerate() { for restart in [false, true] {
            if restart && !on_disk { continue; }
            k += 1; rep.case((pi, on_disk, global, kind, si, restart));
            vpclock::freeze(now);
            let mut c = Config::default(); let dir = sc.0.join(format!("cache{k}")); if on_disk { c.cache_dir = Some(dir.clone()); }
            c.caches.downloaded = DownloadedCacheConfig { max_unused_for: idle.map(s), retry_misses_after: miss.map(s), retry_misses_after_public: public.map(s), retry_malformed_after: bad.map(s), max_lazy_redownloads: 10 };
            ok.store(kind, SeqCst);
            let make = || { let _g = rt.enter(); SharedServices::new(c.clone(), rt.handle().clone()).unwrap() };
            let mut svc = make();
            let scope = if global { Scope::Global } else { Scope::Scoped("1".into()) };
            let f: RemoteFile = HttpRemoteFile::from_url("http://one.example/a.js".parse().unwrap(), true).into();
            let mut known: std::collections::HashMap<PathBuf, FileTime> = Default::default();
            let name = format!("periods idle {idle:?} miss {miss:?} public {public:?} malformed {bad:?}, {} cache, scope {scope:?}, {}, waits {script:?}{}", if on_disk { "disk" } else { "memory" }, ["a good file", "a missing file", "a malformed file"][kind as usize], if restart { ", restarting after each" } else { "" });
            let (mut t, mut used, mut written) = (0u64, 0u64, 0u64);
            for (i, wait) in std::iter::once(&0).chain(&script).enumerate() {
                vpclock::advance(s(*wait)); t += wait;
                if restart && i > 0 { svc = make(); }
                let before = asked.load(SeqCst);
                let r = guarded(|| rt.block_on(async { svc.sourcefiles_cache.fetch_file(&scope, f.clone(), false).await.into_contents().map(|_| ()) }));
                let fetched = asked.load(SeqCst) != before;
                // the file system stamps files with the real time: restamp what was just written
                if on_disk { let mut fs = vec![]; walk(&dir, &mut fs); for p in fs { let m = FileTime::from_last_modification_time(&p.metadata().unwrap()); if known.get(&p) != Some(&m) { let n = FileTime::from_system_time(vpclock::system()); if (m.unix_seconds() - n.unix_seconds()).abs() > 0 { filetime::set_file_mtime(&p, n).unwrap(); } known.insert(p, n); } } }
                match (&r, kind) { (Err(e), _) => { rep.fail("panic", format!("{name}: {e}")); break } (Ok(Ok(())), 0) | (Ok(Err(CacheError::NotFound)), 1) | (Ok(Err(CacheError::Malformed(_))), 2) => {}, _ => rep.fail("answer", format!("{name}: {r:?}")) }
                if i > 0 {
                    let ago = t - written; let never = u64::MAX;
                    if kind == 0 {
                        // uses are recorded, and copies held in memory, for an hour at a time
                        let idle = idle.unwrap_or(never);
                        let since_use = t - used;
                        if on_disk && fetched && since_use + H <= idle { rep.fail("fetched-again", format!("{name}: at {t} s the file used {since_use} s ago was fetched again")); }
                        if !fetched && since_use > idle.saturating_add(H) { rep.fail("expired-used", format!("{name}: at {t} s the file last used {since_use} s ago was still served")); }
                    } else {
                        let p = if kind == 2 { bad } else if global { public } else { miss }.unwrap_or(never);
                        if fetched && ago < p && !(kind == 2 && restart) { rep.fail("retried-early", format!("{name}: at {t} s the entry written {ago} s ago was retried")); }
                        if !fetched && ago >= p { rep.fail("retried-late", format!("{name}: at {t} s the entry written {ago} s ago was still served")); }
                        if !fetched && kind == 2 && restart { rep.fail("malformed-survives", format!("{name}: at {t} s the malformed entry of the previous process was served")); }
                    }
                } else if !fetched { rep.fail("answer", format!("{name}: the first request asked nobody")); }
                if fetched { written = t; }
                used = t;
            }
            let _ = std::fs::remove_dir_all(&dir);
        } } } } } }
    let _: SystemTime = now;
    rep.done();
}
