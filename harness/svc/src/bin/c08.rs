//! Object and source file requests of two scopes through the real caches, the content changing in between
use std::sync::{Arc, Mutex};
use symbolicator_service::config::Config;
use symbolicator_service::objects::{FindObject, ObjectPurpose};
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::*;
use vp_svc::*;
const ID: &str = "3249D99D-0C40-4931-8610-F4E4FB0B6936-1";
fn file(v: u32) -> Vec<u8> { format!("MODULE Linux x86_64 3249D99D0C4049318610F4E4FB0B69361 crash\nINFO CODE_ID 0000\nFILE 0 a{v}.c\nFUNC 1000 {v} 0 f\n1000 {v} {v} 0\n").into_bytes() }
fn services(cache: &std::path::Path, rt: &tokio::runtime::Runtime) -> SharedServices {
    let mut c = Config::default(); c.cache_dir = Some(cache.to_path_buf()); c.connect_to_reserved_ips = true;
    let _g = rt.enter();
    SharedServices::new(c, rt.handle().clone()).unwrap()
}
fn scope(s: Option<&str>) -> Scope { match s { None => Scope::Global, Some(s) => Scope::Scoped(s.into()) } }
fn source(kind: &str, public: Option<bool>, id: &str, dir: &std::path::Path, tag: &str) -> SourceConfig {
    let mut v = match kind {
        "filesystem" => serde_json::json!({"path": dir}),
        "http" => serde_json::json!({"url": format!("http://{tag}.example/")}),
        "s3" => serde_json::json!({"bucket": tag, "region": "us-east-1", "access_key": "a", "secret_key": "s"}),
        "gcs" => serde_json::json!({"bucket": tag, "private_key": "k", "client_email": "m"}),
        _ => serde_json::json!({"url": format!("http://{tag}.example/files"), "token": "t"}),
    };
    v["id"] = id.into(); v["type"] = kind.into();
    if kind != "sentry" { v["layout"] = serde_json::json!({"type": "native"}); if let Some(p) = public { v["is_public"] = p.into(); } }
    serde_json::from_value(v).unwrap()
}
fn main() {
    let mut rep = Rep::new("object requests (find, then fetch) and source file requests of two scopes for the file of one source, whose content changes between the requests: every source kind, public flag unset, false and true, scopes drawn from a list with tricky texts (global, empty, line breaks, quotes, prefixes of each other), by one running service and by a second one over the same cache directory; distinct by (kind, flag, scopes, same service)");
    let sc = Scratch::new("c08"); let rt = rt();
    let now = Arc::new(Mutex::new(vec![]));
    let n2 = now.clone();
    reqwest::vp::install(Arc::new(move |r, _| {
        use reqwest::vp::Reply;
        if r.method() == reqwest::Method::POST { return Reply::ok(b"{\"access_token\": \"x\"}"); }
        let u = r.url();
        if u.path() == "/files" && !u.query().unwrap_or("").starts_with("id=") { return Reply::ok(serde_json::json!([{"id": "1", "symbolType": "breakpad", "objectName": "crash", "debugId": ID}]).to_string().as_bytes()); }
        Reply::ok(&n2.lock().unwrap())
    }));
    let n3 = now.clone();
    aws_sdk_s3::vp::install(Arc::new(move |_, _, _| aws_sdk_s3::vp::Answer::Body(n3.lock().unwrap().clone())));
    let dir = sc.0.join("files"); std::fs::create_dir_all(&dir).unwrap();
    let scopes: Vec<Option<&str>> = vec![None, Some("a"), Some("b"), Some("ab"), Some("A"), Some(""), Some("global"), Some("Global"), Some("\"global\""), Some("a\n"), Some("a\n\nsource: s"), Some("a b"), Some("a%20b"), Some("a/../b"), Some(" a")];
    let mut k = 0;
    let set = |v: u32, name: Option<&str>| { let f = file(v); if let Some(p) = name { let p = dir.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, &f).unwrap(); } *now.lock().unwrap() = f; };
    let find = |s: &SharedServices, src: &SourceConfig, scope: &Scope| -> Result<u32, String> {
        rt.block_on(async {
            let r = s.objects.find(FindObject { filetypes: &[FileType::Breakpad], purpose: ObjectPurpose::Debug, scope: scope.clone(), identifier: ObjectId { debug_id: Some(ID.parse().unwrap()), code_file: Some("crash".into()), debug_file: Some("crash".into()), ..Default::default() }, sources: vec![src.clone()].into() }).await;
            let m = r.meta.ok_or("nothing found")?; let h = m.handle.map_err(|e| format!("{e:?}"))?;
            let o = s.objects.fetch(h).await.map_err(|e| format!("{e:?}"))?;
            let t = String::from_utf8_lossy(o.data()).into_owned();
            t.split("FILE 0 a").nth(1).and_then(|t| t.split('.').next()).and_then(|t| t.parse().ok()).ok_or(format!("contents {t:?}"))
        })
    };
    for kind in ["filesystem", "http", "s3", "gcs", "sentry"] { for public in [None, Some(false), Some(true)] {
        if kind == "sentry" && public.is_some() { continue; }
        // the source id itself must not matter
        for id in ["s", "sentry:microsoft", "public"] { for (i, a) in scopes.iter().enumerate() { for (j, b) in scopes.iter().enumerate() { for again in [false, true] {
            // pairs of distinct scopes; the full product on the thorough tier
            if i == j || (!thorough() && (id != "s") && (i > 1 || j > 2)) || (!thorough() && i > 2 && j > 2 && (i * 31 + j * 7 + kind.len()) % 3 != 0) { continue; }
            k += 1; rep.case((kind, public, a, b, again, id));
            let cache = sc.0.join(format!("cache{k}"));
            let name = Some("crash/3249D99D0C4049318610F4E4FB0B69361/crash.sym").filter(|_| kind == "filesystem");
            let src = source(kind, public, id, &dir, "one");
            let s1 = services(&cache, &rt);
            set(1, name);
            let first = guarded(|| find(&s1, &src, &scope(*a))).and_then(|r| r);
            set(2, name);
            let s2; let s = if again { s2 = services(&cache, &rt); &s2 } else { &s1 };
            let second = guarded(|| find(s, &src, &scope(*b))).and_then(|r| r);
            let what = format!("{kind} source {id} is_public={public:?}, scopes {a:?} then {b:?}{}", if again { " after a restart" } else { "" });
            if first != Ok(1) { rep.fail("find", format!("{what}: the first request gave {first:?}")); }
            let want = if public == Some(true) { 1 } else { 2 };
            match second {
                Ok(1) if want == 2 => rep.fail("shared", format!("{what}: the second scope was served the file cached for the first")),
                Ok(2) if want == 1 => rep.fail("public", format!("{what}: the file of a public source was fetched again")),
                Ok(_) => {}
                Err(e) => rep.fail("find", format!("{what}: the second request gave {e}")),
            }
            // the first scope still finds what it cached
            let third = guarded(|| find(s, &src, &scope(*a))).and_then(|r| r);
            if third == Ok(2) && public != Some(true) { rep.fail("shared", format!("{what}: the first scope is now served the file of the second")); }
            if k % 150 == 1 { rep.sample(format!("{what}: {first:?} {third:?}")); }
            let _ = std::fs::remove_dir_all(&cache);
        } } } }
    } }
    // source files, cached under the scope that is asked for
    for (i, a) in scopes.iter().enumerate() { for (j, b) in scopes.iter().enumerate() { for shared in [false, true] { if i == j { continue; }
        rep.case(("src", a, b, shared)); k += 1;
        let cache = sc.0.join(format!("cache{k}"));
        let s = services(&cache, &rt);
        let f: RemoteFile = HttpRemoteFile::from_url("http://one.example/a.js".parse().unwrap(), true).into();
        let get = |x: Option<&str>| rt.block_on(async { s.sourcefiles_cache.fetch_file(&scope(x), f.clone(), shared).await.into_contents().map(|v| v.as_bytes().to_vec()) });
        set(1, None); let x = get(*a); set(2, None); let y = get(*b);
        if x.ok() != Some(file(1)) || y.ok() != Some(file(2)) { rep.fail("shared", format!("source file, scopes {a:?} then {b:?}: the second scope was not served its own file")); }
        let _ = std::fs::remove_dir_all(&cache);
    } } }
    // an index is a downloaded file too: two scopes use the same source id for two private servers
    for kind in ["http", "s3", "gcs"] {
        rep.case(("index", kind)); k += 1;
        let cache = sc.0.join(format!("cache{k}")); let s = services(&cache, &rt);
        let asked = Arc::new(Mutex::new(vec![])); let (k1, k2) = (asked.clone(), asked.clone());
        reqwest::vp::install(Arc::new(move |r, _| { if r.method() == reqwest::Method::POST { return reqwest::vp::Reply::ok(b"{\"access_token\": \"x\"}"); } k1.lock().unwrap().push(r.url().to_string()); if r.url().path().contains("lastid") { reqwest::vp::Reply::ok(b"0000000001") } else if r.url().path().contains("000Admin") { reqwest::vp::Reply::ok(b"0000000001,add,file,1/1/2024,00:00:00,\"p\",\"1\",\"\",\n") } else { reqwest::vp::Reply::ok(b"x") } }));
        aws_sdk_s3::vp::install(Arc::new(move |_, b, k| { k2.lock().unwrap().push(format!("{b}/{k}")); aws_sdk_s3::vp::Answer::Body(if k.contains("lastid") { b"0000000001".to_vec() } else { b"0000000001,add,file,1/1/2024,00:00:00,\"p\",\"1\",\"\",\n".to_vec() }) }));
        let idx = |tag: &str| { let mut v = serde_json::to_value(source(kind, Some(false), "s", &dir, tag)).unwrap_or_default(); if v.is_null() { v = serde_json::json!({}); } v["has_index"] = true.into(); v["layout"] = serde_json::json!({"type": "symstore"}); serde_json::from_value::<SourceConfig>(v).unwrap() };
        let _ = find(&s, &idx("one"), &scope(Some("a"))); let n1 = asked.lock().unwrap().iter().filter(|u| u.contains("000Admin")).count();
        let _ = find(&s, &idx("two"), &scope(Some("b"))); let all = asked.lock().unwrap().iter().filter(|u| u.contains("000Admin")).count();
        if n1 == 0 { rep.fail("index", format!("{kind}: the index was not fetched")); }
        if all == n1 { rep.fail("index-global", format!("{kind}: scope b was served the index cached for scope a's private source of the same id")); }
    }
    rep.done();
}
