//! Download outcomes: how answers are classified, and which are tried again
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolicator_service::{caching::CacheError, config::Config};
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum K { Good, Missing, Denied, Fail, Late, Other }
use K::*;
/// an answer of an HTTP server
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum A { Code(u16), Broken, Late, Cut(u16), Whole, Zero, BadRange, NoRange, Tail, Cut206 }
fn kind(r: &Result<(), CacheError>) -> K { match r { Ok(()) => Good, Err(CacheError::NotFound) => Missing, Err(CacheError::PermissionDenied(_)) => Denied, Err(CacheError::DownloadError(_)) => Fail, Err(CacheError::Timeout(_)) => K::Late, Err(_) => Other } }
fn code(c: u16) -> K { match c { 200..=299 => Good, 302 | 401 | 403 => Denied, 400..=499 => Missing, _ => Fail } }
/// the outcome of one try, from the answers the server still has; None: it asks on
fn attempt(it: &mut impl Iterator<Item = A>) -> K {
    let plain = |a: A| match a { A::Code(c) => code(c), A::Broken => Fail, A::Late => K::Late, A::Cut(c) => if code(c) == Good { Fail } else { code(c) }, A::Cut206 => Fail, _ => Good };
    let a = it.next().unwrap();
    match a { A::Code(416) | A::Cut(416) | A::BadRange | A::NoRange | A::Tail => plain(it.next().unwrap()), A::Code(206) | A::Cut(206) => plain(it.next().unwrap()), A::Cut206 => Fail, A::Whole | A::Zero => Good, a => plain(a) }
}
fn settled(k: K) -> bool { matches!(k, Good | Missing | Denied) }
fn tries(it: &mut impl Iterator<Item = A>) -> (K, usize) { let mut n = 0; loop { n += 1; let k = attempt(it); if settled(k) || n == 3 { return (k, n); } } }
fn main() {
    let mut rep = Rep::new("downloads over HTTP, Sentry, S3, GCS and the file system with any status (200 to 999), failing and late connections, bodies that break off, ranges of every kind, AWS errors of every kind and code, missing and unreadable files, in any sequence: the kind of error reported is the one of the last answer, success only after a success; not-found, denied and successful answers are not asked again, the others three times; distinct by sequence");
    let sc = Scratch::new("c15"); let rt = rt_paused(); let mut rng = rng::Rng::new(seed());
    let dl = downloader(&Config { deny_list_enabled: false, ..Config::default() }, &rt);
    let script: Arc<Mutex<(Vec<A>, usize)>> = Default::default(); let s2 = script.clone();
    let tokens: Arc<Mutex<(Vec<Option<u16>>, usize)>> = Default::default(); let t2 = tokens.clone();
    reqwest::vp::install(Arc::new(move |r, _| {
        if r.method() == reqwest::Method::POST { let mut t = t2.lock().unwrap(); let a = t.0.get(t.1).copied().unwrap_or(Some(200)); t.1 += 1; return match a { None => Reply::failing("reset"), Some(200) => Reply::ok(br#"{"access_token": "t"}"#), Some(c) => Reply::status(c, b"{}") }; }
        let mut s = s2.lock().unwrap(); let a = s.0.get(s.1).copied().unwrap_or(A::Broken); s.1 += 1;
        let cr = |v: &str, b: &[u8]| Reply::status(206, b).header("content-range", v);
        match a { A::Code(c) => Reply::status(c, b"body"), A::Broken => Reply::failing("connection reset"), A::Late => { let mut r = Reply::ok(b"x"); r.delay = Duration::from_secs(100_000); r }
            A::Cut(c) => { let mut r = Reply::status(c, b"bo"); r.body.push(Err("cut".into())); r } A::Whole => cr("bytes 0-3/4", b"body"), A::Zero => cr("bytes 0-0/0", b""), A::BadRange => cr("bytes 4-2/9", b"xx"), A::NoRange => Reply::status(206, b"xx"), A::Tail => cr("bytes 2-3/4", b"dy"),
            A::Cut206 => { let mut r = cr("bytes 0-3/4", b"bo"); r.body.push(Err("cut".into())); r } }
    }));
    let http: Arc<HttpSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "h", "url": "https://files.example/", "layout": {"type": "native"}})).unwrap());
    let sentry: Arc<SentrySourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "sentry:project", "url": "https://sentry.example/api/", "token": "t"})).unwrap());
    let gcs: Arc<GcsSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "g", "bucket": "b", "private_key": "k", "client_email": "m@x", "layout": {"type": "unified"}})).unwrap());
    let files: Vec<RemoteFile> = vec![HttpRemoteFile::new(http.clone(), SourceLocation::new("f")).into(), SentryRemoteFile::new(sentry, true, SentryFileId("1".into()), None).into(), GcsRemoteFile::new(gcs.clone(), SourceLocation::new("f")).into()];
    let out = sc.0.join("f");
    let mut seqs: Vec<(usize, Vec<A>)> = vec![];
    for c in (200..600).chain([600, 700, 999]) { for f in 0..3 { if f == 0 || c % 7 == 3 || c < 210 || (300..310).contains(&c) || (400..420).contains(&c) || (500..506).contains(&c) { seqs.push((f, vec![A::Code(c); 6])); } } }
    let pool = [A::Code(200), A::Code(204), A::Code(206), A::Code(301), A::Code(302), A::Code(304), A::Code(400), A::Code(401), A::Code(403), A::Code(404), A::Code(407), A::Code(408), A::Code(410), A::Code(416), A::Code(418), A::Code(429), A::Code(451), A::Code(499), A::Code(500), A::Code(502), A::Code(503), A::Code(504), A::Code(599), A::Broken, A::Late, A::Cut(200), A::Cut(206), A::Cut(404), A::Cut(503), A::Whole, A::Zero, A::BadRange, A::NoRange, A::Tail, A::Cut206];
    for a in pool { for b in pool { seqs.push((0, vec![a, b, A::Code(404), A::Code(404), A::Code(404), A::Code(404)])); } }
    for _ in 0..if thorough() { 60_000 } else { 1500 } { let f = rng.below(3); let hard = rng.below(2) == 0; seqs.push((f, (0..6).map(|_| if hard && rng.below(4) > 0 { *rng.pick(&[A::Code(503), A::Broken, A::Late, A::Cut(200), A::Code(500), A::BadRange, A::Code(416), A::Cut206]) } else { *rng.pick(&pool) }).collect())); }
    for (f, seq) in &seqs {
        *script.lock().unwrap() = (seq.clone(), 0); rep.case((f, seq));
        let r = match guarded(|| rt.block_on(dl.download(files[*f].clone(), out.clone()))) { Ok(r) => r, Err(e) => { rep.fail("panic", format!("{seq:?} of {}: {e}", files[*f].uri())); continue; } };
        let used = script.lock().unwrap().1;
        let mut it = seq.iter().copied().chain(std::iter::repeat(A::Broken)).enumerate().map(|(i, a)| { let _ = i; a });
        let mut n = 0; let mut counted = std::iter::from_fn(|| { n += 1; it.next() }); let (k, t) = tries(&mut counted);
        if kind(&r) != k { rep.fail("kind", format!("the answers {:?} are reported as {r:?}, expected {k:?}", &seq[..used.min(6)])); }
        else if used != n { rep.fail("tries", format!("the answers {seq:?} are {k:?} after {t} tries with {n} requests, {used} requests were made")); }
        if k == Good && r.is_ok() { let b = std::fs::read(&out).unwrap_or_default(); let last = if used > 0 && used <= 6 { seq[used - 1] } else { A::Broken }; let want: &[u8] = match last { A::Zero if used > 0 => b"", A::Code(_) => b"body", A::Whole => b"body", _ => continue }; if b != want && !(last == A::Zero && b.is_empty()) { rep.fail("content", format!("the answers {:?} store {b:?}", &seq[..used])); } }
    }
    rep.sample(format!("{:?}", seqs[seqs.len() - 1]));
    // parts: a large file of which one part is answered otherwise
    {
        let part: Arc<Mutex<(A, usize, usize)>> = Arc::new(Mutex::new((A::Broken, 0, 0))); let p2 = part.clone(); let total = 512u64 << 20;
        reqwest::vp::install(Arc::new(move |r, _| {
            let mut p = p2.lock().unwrap(); p.2 += 1; let v = r.headers().get("range").map(|v| v.to_str().unwrap().strip_prefix("bytes=").unwrap().to_string());
            let Some(v) = v else { return Reply::status(599, b"") }; let (a, b) = v.split_once('-').unwrap(); let (a, b): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
            let good = |a: u64, b: u64| Reply::status(206, b"").header("content-range", &format!("bytes {a}-{b}/{total}"));
            if a == 0 { p.2 = 1; return good(0, 9); }
            let i = p.2 - 2; if i != p.1 { let mut r = good(a, b); r.delay = Duration::from_secs(2); return r; }
            match p.0 { A::Code(206) => good(a, b), A::Code(c) => Reply::status(c, b""), A::Late => { let mut r = good(a, b); r.delay = Duration::from_secs(100_000); r } A::Cut(_) => { let mut r = good(a, b); r.body.push(Err("cut".into())); r } A::Tail => good(a - 1, b - 1), A::BadRange => Reply::status(206, b"").header("content-range", "bytes 1"), _ => Reply::failing("reset") }
        }));
        for a in [A::Code(206), A::Code(200), A::Code(302), A::Code(401), A::Code(403), A::Code(404), A::Code(416), A::Code(418), A::Code(500), A::Code(503), A::Broken, A::Late, A::Cut(206), A::Tail, A::BadRange] { for i in 0..4 {
            *part.lock().unwrap() = (a, i, 0); rep.case(("part", a, i));
            let r = guarded(|| rt.block_on(dl.download(files[0].clone(), out.clone()))).unwrap_or(Err(CacheError::InternalError));
            let want = match a { A::Code(206) => Good, A::Code(200) => Fail, A::Code(c) => code(c), A::Late => K::Late, _ => Fail };
            if kind(&r) != want { rep.fail("part", format!("a part answered {a:?} makes the download {r:?}, expected {want:?}")); }
        } }
    }
    // the token server of GCS
    for t in [None, Some(500u16), Some(403), Some(404), Some(401)] {
        let dl = downloader(&Config { deny_list_enabled: false, ..Config::default() }, &rt);
        *tokens.lock().unwrap() = (vec![t; 9], 0); *script.lock().unwrap() = (vec![A::Whole; 9], 0); rep.case(("token", t));
        let s3 = script.clone(); let t3 = tokens.clone();
        reqwest::vp::install(Arc::new(move |r, _| { if r.method() == reqwest::Method::POST { let mut t = t3.lock().unwrap(); let a = t.0[t.1.min(8)]; t.1 += 1; match a { None => Reply::failing("reset"), Some(c) => Reply::status(c, b"{}") } } else { s3.lock().unwrap().1 += 1; Reply::ok(b"body") } }));
        let r = guarded(|| rt.block_on(dl.download(files[2].clone(), out.clone()))).unwrap_or(Err(CacheError::InternalError));
        if kind(&r) != Fail { rep.fail("token", format!("a token request answered {t:?} makes the download {r:?}")); }
    }
    // S3
    use aws_sdk_s3::vp::Answer;
    let s3script: Arc<Mutex<(Vec<Answer>, usize)>> = Default::default(); let s4 = s3script.clone();
    aws_sdk_s3::vp::install(Arc::new(move |_, _, _| { let mut s = s4.lock().unwrap(); let a = s.0[s.1.min(s.0.len() - 1)].clone(); s.1 += 1; a }));
    let s3: Arc<S3SourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "s", "bucket": "b", "region": "us-east-1", "access_key": "a", "secret_key": "s", "layout": {"type": "unified"}})).unwrap());
    let file: RemoteFile = S3RemoteFile::new(s3, SourceLocation::new("f")).into();
    let codes = [None, Some("NoSuchKey"), Some("NoSuchBucket"), Some("NotFound"), Some("AccessDenied"), Some("AuthorizationHeaderMalformed"), Some("InvalidAccessKeyId"), Some("SlowDown"), Some("InternalError"), Some("RequestTimeout"), Some("NoSuchKeys"), Some("nosuchkey"), Some("")];
    let mut pool = vec![Answer::Body(b"body".to_vec()), Answer::Body(vec![]), Answer::Timeout, Answer::Dispatch];
    for status in [200u16, 301, 302, 400, 401, 402, 403, 404, 405, 416, 429, 500, 501, 503] { for code in codes { pool.push(Answer::Service { status, code, message: "m" }); } }
    let k3 = |a: &Answer| match a { Answer::Body(b) => if b.is_empty() { Missing } else { Good }, Answer::Timeout => K::Late, Answer::Dispatch => Fail, Answer::Service { status, code, .. } => if matches!(status, 401 | 403) || *code == Some("AuthorizationHeaderMalformed") { Denied } else if matches!(code, Some("NoSuchKey" | "NoSuchBucket" | "NotFound")) { Missing } else { Fail } };
    let mut seqs: Vec<Vec<Answer>> = pool.iter().map(|a| vec![a.clone(); 3]).collect();
    for _ in 0..if thorough() { 5000 } else { 300 } { seqs.push((0..3).map(|i| if i < 2 && rng.below(3) > 0 { rng.pick(&[Answer::Timeout, Answer::Dispatch, Answer::Service { status: 503, code: Some("SlowDown"), message: "" }]).clone() } else { rng.pick(&pool).clone() }).collect()); }
    for seq in &seqs {
        *s3script.lock().unwrap() = (seq.clone(), 0); rep.case(format!("{seq:?}"));
        let r = guarded(|| rt.block_on(dl.download(file.clone(), out.clone()))).unwrap_or(Err(CacheError::InternalError)); let used = s3script.lock().unwrap().1;
        let n = seq.iter().position(|a| settled(k3(a))).map_or(3, |i| i + 1); let want = k3(&seq[n - 1]);
        if kind(&r) != want { rep.fail("s3", format!("the S3 answers {:?} are reported as {r:?}, expected {want:?}", &seq[..n])); } else if used != n { rep.fail("s3-tries", format!("the S3 answers {seq:?}: {used} requests, expected {n}")); }
    }
    // the file system
    let d = sc.0.join("src"); std::fs::create_dir_all(d.join("dir")).unwrap(); std::fs::write(d.join("file"), b"body").unwrap();
    let fs: Arc<FilesystemSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "l", "path": d.to_str().unwrap(), "layout": {"type": "unified"}})).unwrap());
    for (p, want) in [("file", Good), ("gone", Missing), ("gone/deeper", Missing), ("dir", Other), ("file/below", Other)] {
        rep.case(p); let r = rt.block_on(dl.download(FilesystemRemoteFile::new(fs.clone(), SourceLocation::new(p)).into(), out.clone()));
        if kind(&r) != want { rep.fail("fs", format!("{p}: {r:?}, expected {want:?}")); }
    }
    rep.done();
}
