//! Cleaning up cache trees: exactly the expired files and the directories that became empty go
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, UNIX_EPOCH};
use filetime::FileTime;
use symbolicator_service::caching::cleanup;
use symbolicator_service::config::*;
use symbolicator_service::types::Scope;
use vp_svc::*;
const H: u64 = 3600;
const CACHES: [(&str, usize); 12] = [("objects", 0), ("object_meta", 1), ("auxdifs", 0), ("il2cpp", 0), ("symcaches", 1), ("cficaches", 1), ("ppdb_caches", 1), ("sourcemap_caches", 1), ("sourcefiles", 0), ("diagnostics", 2), ("proguard", 0), ("source_index", 3)];
type Tree = BTreeMap<PathBuf, Option<(Vec<u8>, FileTime)>>;
/// everything below d: directories, links and special files (None), files with contents and time
fn snap(d: &Path, out: &mut Tree) {
    let Ok(r) = std::fs::read_dir(d) else { return };
    for e in r.flatten() {
        let (p, t) = (e.path(), e.file_type().unwrap());
        if t.is_dir() { out.insert(p.clone(), None); snap(&p, out); }
        else if t.is_file() { out.insert(p.clone(), Some((std::fs::read(&p).unwrap(), FileTime::from_last_modification_time(&e.metadata().unwrap())))); }
        else { out.insert(p, None); }
    }
}
struct World<'a> { r: &'a mut rng::Rng, limits: [[Option<u64>; 4]; 4], expect: BTreeMap<PathBuf, Option<bool>>, n: usize, special: bool }
impl World<'_> {
    /// fills a directory; true if everything in it goes
    fn fill(&mut self, d: &Path, class: usize, depth: usize) -> bool {
        std::fs::create_dir_all(d).unwrap();
        let mut all = true;
        for _ in 0..self.r.below(5) {
            self.n += 1;
            let p = d.join(format!("{}{}", ["k", "v", "long-name-", "\u{e9}"][self.r.below(4)], self.n));
            if depth > 0 && self.r.below(3) == 0 {
                let goes = self.fill(&p, class, depth - 1);
                self.expect.insert(p, Some(goes)); all &= goes; continue;
            }
            if self.r.below(12) == 0 {
                // metadata without a cache file
                let m = p.with_extension("metadata"); std::fs::write(&m, "{}").unwrap(); self.expect.insert(m, None); continue;
            }
            if self.special && self.r.below(8) == 0 {
                // cannot be judged: a link to itself, a named pipe
                if self.r.below(2) == 0 { std::os::unix::fs::symlink(&p, &p).unwrap(); }
                else { let _ = std::process::Command::new("mkfifo").arg(&p).status(); if p.symlink_metadata().is_err() { continue; } }
                self.expect.insert(p, Some(false)); all = false; continue;
            }
            let kind = self.r.below(4);
            std::fs::write(&p, [&b"contents"[..], b"", b"timeout5s", b"malformedx"][kind]).unwrap();
            let md = self.r.below(4);
            // hours since the last use and since the entry was written
            let ages = [0, 2, 4, 6, 8, 11, 13, 100, 1000, 100000];
            let (used, made) = (ages[self.r.below(ages.len())], ages[self.r.below(ages.len())]);
            let at = |h: u64| UNIX_EPOCH + Duration::from_secs(1_700_000_000 - h * H);
            filetime::set_file_mtime(&p, FileTime::from_system_time(at(used))).unwrap();
            let m = p.with_extension("metadata");
            let mut made = made;
            match md {
                0 => made = used,
                1 => { std::fs::write(&m, ["", "{", "null", "not json"][self.r.below(4)]).unwrap(); made = used; }
                _ => std::fs::write(&m, serde_json::to_string(&symbolicator_service::caching::Metadata { scope: if md == 2 { Scope::Global } else { Scope::Scoped("7".into()) }, time_created: at(made), debug: None }).unwrap()).unwrap(),
            }
            let [idle, miss, public, malformed] = self.limits[class];
            let expired = match kind { 0 => idle.is_some_and(|l| used > l), 3 => made > 0 || malformed == Some(0), _ => if md == 2 { public } else { miss }.is_some_and(|l| made >= l) };
            // metadata that cannot be read is replaced, whether or not its file stays
            if md != 0 { self.expect.insert(m, if md == 1 && !expired { None } else { Some(expired) }); }
            self.expect.insert(p, Some(expired)); all &= expired;
        }
        all
    }
}
fn main() {
    let mut rep = Rep::new("cache directories of all kinds filled with random trees of good, missing, failed and malformed entries of all ages with valid, broken, orphaned or no metadata, entries that cannot be judged, and empty directories, under random retention settings; a dry run must change nothing, a run must leave exactly what the reference leaves, and a second one nothing more");
    let mut r = rng::Rng::new(seed() + 28);
    vpclock::freeze(UNIX_EPOCH + Duration::from_secs(1_700_000_000));
    let sc = Scratch::new("c28");
    let rounds = if thorough() { 6000 } else { 500 };
    for round in 0..rounds {
        let root = sc.0.join(format!("r{round}")); let base = root.join("cache");
        let mut lim = || [None, Some(0), Some(1), Some(3), Some(5), Some(7), Some(12), Some(24), Some(500)][r.below(9)];
        let mut limits = [[None; 4]; 4];
        for (i, l) in limits.iter_mut().enumerate() { *l = [lim(), lim(), lim(), lim()]; if i == 2 { l[1] = None; l[2] = None; l[3] = None; } }
        let t = |l: Option<u64>| l.map(|h| Duration::from_secs(h * H));
        let mut c = Config { cache_dir: Some(base.clone()), ..Default::default() };
        let [d, e, g, i] = limits;
        c.caches.downloaded = DownloadedCacheConfig { max_unused_for: t(d[0]), retry_misses_after: t(d[1]), retry_misses_after_public: t(d[2]), retry_malformed_after: t(d[3]), max_lazy_redownloads: 3 };
        c.caches.derived = DerivedCacheConfig { max_unused_for: t(e[0]), retry_misses_after: t(e[1]), retry_misses_after_public: t(e[2]), retry_malformed_after: t(e[3]), max_lazy_recomputations: 3 };
        c.caches.diagnostics = DiagnosticsCacheConfig { retention: t(g[0]) };
        c.caches.index = IndexCacheConfig { max_unused_for: t(i[0]), retry_misses_after: t(i[1]), retry_misses_after_public: t(i[2]), retry_malformed_after: t(i[3]), max_lazy_recomputations: 3 };
        let mut w = World { r: &mut r, limits, expect: BTreeMap::new(), n: 0, special: round % 2 == 0 };
        for (name, class) in CACHES { w.fill(&base.join(name), class, 3); }
        let expect = w.expect;
        // neighbours of the caches
        for o in ["outside", "cache/other/deep", "cache/tmp"] { std::fs::create_dir_all(root.join(o)).unwrap(); std::fs::write(root.join(o).join("old"), b"").unwrap(); filetime::set_file_mtime(root.join(o).join("old"), FileTime::from_unix_time(1, 0)).unwrap(); }
        let mut before = Tree::new(); snap(&root, &mut before);
        rep.case((round, before.len()));
        let what = |p: &Path| format!("{} of {:?}", p.strip_prefix(&root).unwrap_or(p).display(), before.get(p).map(|f| f.as_ref().map(|f| (String::from_utf8_lossy(&f.0).into_owned(), (1_700_000_000 - f.1.unix_seconds()) / 3600))));
        match guarded(|| cleanup(c.clone(), true)) { Ok(Ok(())) => {} x => rep.fail("run", format!("a dry run ends with {x:?}")) }
        let mut dry = Tree::new(); snap(&root, &mut dry);
        for (p, f) in &before { if dry.get(p) != Some(f) { rep.fail("dry-run", format!("a dry run changed {}, retention {limits:?}", what(p))); } }
        match guarded(|| cleanup(c.clone(), false)) { Ok(Ok(())) => {} x => rep.fail("run", format!("a run ends with {x:?}")) }
        let mut after = Tree::new(); snap(&root, &mut after);
        let mut gone = 0;
        for (p, f) in &before {
            let went = !after.contains_key(p); gone += went as usize;
            // what is below a removed directory is gone with it
            match expect.get(p) { Some(Some(x)) if *x != went => rep.fail(if went { "kept" } else { "removed" }, format!("{} {} (hours of retention {limits:?})", what(p), if went { "was removed" } else { "was left" })), Some(_) => {} None if went && p.extension().is_none_or(|e| e != "metadata") => rep.fail("outside", format!("{} was removed", what(p))), None => {} }
            if !went && after.get(p) != Some(f) { rep.fail("touched", format!("{} was changed", what(p))); }
        }
        // metadata without a cache file stays unless its directory goes
        for (p, x) in &expect { if x.is_none() && after.contains_key(p.parent().unwrap()) && !after.contains_key(p) && before[p].as_ref().is_some_and(|f| f.0 == b"{}") { rep.fail("orphan", format!("{} was removed", what(p))); } }
        for p in after.keys() { if !before.contains_key(p) { rep.fail("created", format!("{} appeared", what(p))); } }
        let _ = guarded(|| cleanup(c.clone(), false));
        let mut again = Tree::new(); snap(&root, &mut again);
        if again != after { rep.fail("again", format!("a second run changed the caches further, retention {limits:?}")); }
        if round < 3 { rep.sample(format!("{} entries, {gone} removed, retention {limits:?}", before.len())); }
        let _ = std::fs::remove_dir_all(&root);
    }
    // one cache that cannot be read does not keep the others, and is reported
    for broken in 0..CACHES.len() {
        let base = sc.0.join(format!("b{broken}"));
        let t = Some(Duration::from_secs(5 * H));
        let mut c = Config { cache_dir: Some(base.clone()), ..Default::default() };
        c.caches.downloaded.max_unused_for = t; c.caches.derived.max_unused_for = t; c.caches.diagnostics.retention = t; c.caches.index.max_unused_for = t;
        let caches = symbolicator_service::caching::Caches::from_config(&c).unwrap();
        for (name, _) in CACHES { let f = base.join(name).join("old"); std::fs::write(&f, b"contents").unwrap(); filetime::set_file_mtime(&f, FileTime::from_system_time(UNIX_EPOCH + Duration::from_secs(1_700_000_000 - 9 * H))).unwrap(); }
        let bad = base.join(CACHES[broken].0); std::fs::remove_dir_all(&bad).unwrap(); std::fs::write(&bad, b"").unwrap();
        rep.case(("broken", broken));
        for dry in [true, false] {
            match guarded(|| caches.cleanup(dry)) { Ok(Err(_)) => {} x => rep.fail("fault", format!("a run (dry: {dry}) in which {} cannot be listed ends with {x:?}", bad.display())) }
            for (i, (name, _)) in CACHES.iter().enumerate() { if i != broken && base.join(name).join("old").exists() != dry { rep.fail("fault", format!("{name}/old has expired and {} (dry: {dry}) when {} cannot be listed", if dry { "was removed" } else { "was kept" }, bad.display())); } }
        }
        let _ = std::fs::remove_dir_all(&base);
    }
    rep.done();
}
