//! Errors written by CacheError::write and read back by Cache::open_cachefile; file contents of every kind; errors served on hits
use std::sync::atomic::AtomicIsize;
use std::sync::{Arc, Mutex};
use std::time::{Duration, UNIX_EPOCH};
use symbolicator_service::caching::{Cache, CacheError, CacheName};
use symbolicator_service::config::*;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::*;
use vp_svc::*;
fn kinds() -> Vec<(&'static str, fn(String) -> CacheError, &'static [u8])> { vec![("denied", CacheError::PermissionDenied, b"permissiondenied"), ("download", CacheError::DownloadError, b"downloaderror"), ("malformed", CacheError::Malformed, b"malformed"), ("unsupported", CacheError::Unsupported, b"unsupported")] }
fn main() {
    let mut rep = Rep::new("every error kind with messages that are empty, contain or start with markers, non-ASCII, line breaks, NUL characters, long, or random, written over files of any earlier content and with the cursor anywhere, read back through open_cachefile: the same error (up to a NUL character of the message), the file exactly its marker and message; timeouts of all magnitudes; file contents with and without a marker: positive unless marked or empty; server failures served again from disk: the same error; distinct by case");
    let sc = Scratch::new("c11"); vpclock::freeze(UNIX_EPOCH + Duration::from_secs(1_700_000_000));
    let rt = rt(); let mut rng = rng::Rng::new(seed());
    let cfg = CacheConfig::Downloaded(DownloadedCacheConfig { max_unused_for: None, retry_misses_after: None, retry_misses_after_public: None, retry_malformed_after: None, max_lazy_redownloads: 1 });
    let cache = Cache::from_config(CacheName::Objects, &Config::default(), cfg, Arc::new(AtomicIsize::new(1)), 10).unwrap();
    let file = sc.0.join("entry");
    let future = filetime::FileTime::from_unix_time(1_700_000_100, 0);
    let read = |f: &std::path::Path| -> Result<Result<Vec<u8>, CacheError>, String> { filetime::set_file_mtime(f, future).unwrap(); match guarded(|| cache.open_cachefile(f)) { Err(e) => Err(e), Ok(Err(e)) => Err(e.to_string()), Ok(Ok(None)) => Err("no entry".into()), Ok(Ok(Some((e, _)))) => Ok(e.into_contents().map(|b| b.to_vec())) } };
    let marks: Vec<&str> = vec!["malformed", "permissiondenied", "timeout", "downloaderror", "unsupported"];
    let mut msgs: Vec<String> = ["", " ", "x", "no trailing\n", "a\r\nb", "ünïcödé 😀", "\u{feff}", "\u{1}", "\u{7f}\u{80}", "0", "timeout1s", "1s", "'quoted' \"x\" \\", "a\0b", "\0", "end\0", "\0\0\0", "ü\0ü", "\u{100}", "\u{10ffff}"].iter().map(|s| s.to_string()).collect();
    for m in &marks { for t in ["", "x", " x"] { msgs.push(format!("{m}{t}")); msgs.push(format!("{t}{m}")); } msgs.push(m[1..].into()); msgs.push(m[..m.len() - 1].into()); }
    for n in [1023usize, 1024, 4095, 4096, 4097, 8192, 65_536, 300_000, 5_000_000] { msgs.push("y".repeat(n)); }
    for _ in 0..if thorough() { 4000 } else { 400 } { let n = rng.below(40); msgs.push((0..n).map(|_| match rng.below(5) { 0 => char::from_u32(rng.below(0x300) as u32).unwrap_or('x'), 1 => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('y'), _ => (32 + rng.below(95)) as u8 as char }).collect()); }
    let mut durs: Vec<Duration> = vec![Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(1), Duration::from_nanos(999_999_999), Duration::from_secs(u32::MAX as u64), Duration::new(315, 1), Duration::from_secs(300), Duration::from_millis(1_500), Duration::from_secs(86_400 * 365 * 50)];
    for _ in 0..300 { durs.push(Duration::new(rng.below(1 << 40) as u64 >> rng.below(40), (rng.below(1_000_000_000) >> rng.below(30)) as u32)); }
    let mut errs: Vec<(CacheError, CacheError, Vec<u8>)> = vec![(CacheError::NotFound, CacheError::NotFound, vec![])];
    for m in &msgs { let cut = m.split('\0').next().unwrap().to_string(); for (_, k, mark) in kinds() { errs.push((k(m.clone()), k(cut.clone()), [mark, m.as_bytes()].concat())); } }
    for d in durs { errs.push((CacheError::Timeout(d), CacheError::Timeout(d), vec![])); }
    let short = |e: &CacheError| { let s = format!("{e:?}"); if s.len() > 120 { format!("{}… ({} bytes)", s.chars().take(100).collect::<String>(), s.len()) } else { s } };
    for (i, (e, want, bytes)) in errs.iter().enumerate() { for (j, old) in [&b""[..], b"x", b"malformedprevious message that is longer than many new ones \xff\xff", &vec![b'z'; 70_000]].into_iter().enumerate() {
        if bytes.len() > 100_000 && j == 1 { continue; }
        if i > 500 && j != i % 4 { continue; }
        rep.case((i, j, format!("{e:?}")));
        std::fs::write(&file, old).unwrap();
        let r = rt.block_on(async { let mut f = tokio::fs::OpenOptions::new().read(true).write(true).open(&file).await.unwrap(); use tokio::io::AsyncSeekExt; f.seek(std::io::SeekFrom::Start([0u64, 1, 7, 100_000][(i + j) % 4])).await.unwrap(); let r = e.write(&mut f).await; use tokio::io::AsyncWriteExt; f.flush().await.unwrap(); r });
        let name = format!("{} written over {} bytes", short(e), old.len());
        if let Err(x) = r { rep.fail("write", format!("{name}: {x}")); continue }
        let on_disk = std::fs::read(&file).unwrap();
        if !matches!(e, CacheError::Timeout(_)) && on_disk != *bytes { rep.fail("bytes", format!("{name}: the file has {} bytes {:?}, expected {}", on_disk.len(), String::from_utf8_lossy(&on_disk[..on_disk.len().min(80)]), bytes.len())); }
        match read(&file) { Ok(Err(got)) if got == *want => {}, Ok(Err(got)) => rep.fail("other-error", format!("{name}: read back as {}", short(&got))), Ok(Ok(b)) => rep.fail("positive", format!("{name}: read back as a file of {} bytes", b.len())), Err(x) => rep.fail("panic", format!("{name}: {x}")) }
        if i % 300 == 5 { rep.sample(name); }
    } }
    // an internal error is not persisted
    for old in [&b"content"[..], b"malformedx"] { rep.case(("internal", old)); std::fs::write(&file, old).unwrap(); let _ = rt.block_on(async { let mut f = tokio::fs::OpenOptions::new().read(true).write(true).open(&file).await.unwrap(); CacheError::InternalError.write(&mut f).await }); if std::fs::read(&file).unwrap() != old { rep.fail("internal", "an internal error was written to the file".into()); } }
    // contents
    let mut cs: Vec<Vec<u8>> = vec![vec![0], vec![0; 100], b"\xff\xfe".to_vec(), b" malformed".to_vec(), b"Malformed".to_vec(), b"MALFORMED".to_vec(), b"\0malformed".to_vec(), b"notfound".to_vec(), b"internalerror".to_vec(), b"\n".to_vec(), b"m".to_vec()];
    for m in &marks { let b = m.as_bytes(); for n in 1..b.len() { cs.push(b[..n].to_vec()); cs.push(b[n..].to_vec()); let mut x = b.to_vec(); x[n] ^= 0x20; cs.push(x); } let mut x = b.to_vec(); x[0] = b'X'; cs.push(x); cs.push([b"x", b].concat()); for t in [&b""[..], b"\xff", b"\0\xff\xff", b"a\xc3\x28b", b"1s", b"1s\0\0\0junk", b"bad duration"] { cs.push([b, t].concat()); } }
    for _ in 0..300 { let n = 1 + rng.below(30); cs.push((0..n).map(|_| rng.below(256) as u8).collect()); }
    for (i, c) in cs.iter().enumerate() { rep.case(("content", c.clone())); std::fs::write(&file, c).unwrap();
        let marked = marks.iter().find(|m| c.starts_with(m.as_bytes())); let name = format!("content {:?}", String::from_utf8_lossy(c));
        match (read(&file), marked) {
            (Ok(Ok(b)), None) if b == *c => {}
            (Ok(Err(e)), Some(m)) => { let rest = &c[m.len()..]; let t = String::from_utf8_lossy(rest.split(|b| *b == 0).next().unwrap()).into_owned();
                let ok = match (&e, *m) { (CacheError::Timeout(d), "timeout") => t == "1s" && *d == Duration::from_secs(1), (CacheError::InternalError, "timeout") => t != "1s", (x, m) => kinds().iter().any(|(_, k, mm)| *mm == m.as_bytes() && *x == k(t.clone())) };
                if !ok { rep.fail("decode", format!("{name}: {e:?}")); } }
            (r, _) => rep.fail("decode", format!("{name}: {r:?}")) }
        if i % 100 == 7 { rep.sample(name); } }
    // the same error on a hit from disk as on the miss that produced it
    let answer: Arc<Mutex<(u16, Vec<u8>, bool)>> = Arc::new(Mutex::new((200, vec![], false))); let a2 = answer.clone(); let asked = Arc::new(AtomicIsize::new(0)); let n2 = asked.clone();
    reqwest::vp::install(Arc::new(move |_, _| { n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst); let (st, b, slow) = a2.lock().unwrap().clone(); let r = if st == 200 { reqwest::vp::Reply::ok(&b) } else { reqwest::vp::Reply::status(st, &b) }; let mut r = r; if slow { r.delay = Duration::from_secs(10_000).into(); } r }));
    let prt = rt_paused();
    for st in [200u16, 401, 403, 404, 410, 451, 500, 503] { for body in [&b""[..], b"Access denied", b"<Error>\n<Code>AccessDenied</Code></Error>", "ünïcödé".as_bytes(), b"malformed", b"timeout5s", b"\xff\xfe"] { for slow in [false, true] { for mem in [false, true] {
        rep.case(("served", st, body, slow, mem)); *answer.lock().unwrap() = (st, body.to_vec(), slow);
        let dir = sc.0.join("cache"); let _ = std::fs::remove_dir_all(&dir);
        let mut c = Config::default(); c.cache_dir = Some(dir); c.caches.downloaded = DownloadedCacheConfig { max_unused_for: None, retry_misses_after: None, retry_misses_after_public: None, retry_malformed_after: None, max_lazy_redownloads: 10 };
        let make = || { let _g = prt.enter(); SharedServices::new(c.clone(), prt.handle().clone()).unwrap() };
        let f: RemoteFile = HttpRemoteFile::from_url("http://one.example/a.js".parse().unwrap(), true).into();
        let get = |s: &SharedServices| guarded(|| prt.block_on(async { s.sourcefiles_cache.fetch_file(&Scope::Global, f.clone(), false).await.into_contents().map(|b| b.as_bytes().to_vec()) }));
        let s1 = make(); let one = get(&s1); let n = asked.load(std::sync::atomic::Ordering::SeqCst);
        let two = if mem { get(&s1) } else { get(&make()) };
        let name = format!("status {st}, body {:?}{}{}", String::from_utf8_lossy(body), if slow { ", too late" } else { "" }, if mem { "" } else { ", after a restart" });
        if asked.load(std::sync::atomic::Ordering::SeqCst) != n { if matches!(one, Ok(Err(CacheError::Malformed(_)))) && !mem { continue } if !matches!(one, Ok(Err(CacheError::InternalError))) { rep.fail("not-cached", format!("{name}: asked again after {one:?}")); } }
        match (&one, &two) { (Ok(Ok(a)), Ok(Ok(b))) if a == b => {}, (Ok(Err(a)), Ok(Err(b))) if a == b => {}, _ if st == 200 && !slow && (body.is_empty() || marks.iter().any(|m| body.starts_with(m.as_bytes()))) => {}, _ => rep.fail("hit-differs", format!("{name}: first {one:?}, then {two:?}")) }
    } } } }
    rep.done();
}
