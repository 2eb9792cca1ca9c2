//! Which credentials and headers go with the requests for the files of Sentry, HTTP and Google sources
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use reqwest::vp::Reply;
use serde_json::{json, Value};
use symbolicator_service::{caching::{Caches, SharedCacheService}, config::Config, download::{list_files, SourceIndexService}};
use symbolicator_sources::*;
use vp_svc::*;
/// one request: where to, credentials, other headers
type Asked = (String, Option<String>, BTreeMap<String, String>);
fn main() {
    let mut rep = Rep::new("two to five sources of one request (Sentry: four addresses and three tokens; HTTP: own headers, an own authorization among them, header names that are none; Google: three buckets and two keys), queried for debug and code ids, with and without a checksum, all files listed and downloaded in any order; every request the service makes");
    let mut r = rng::Rng::new(seed() + 320); let rt = rt(); let sc = Scratch::new("c32s");
    let log: Arc<Mutex<Vec<Asked>>> = Default::default(); let l = log.clone();
    reqwest::vp::install(Arc::new(move |q, _| {
        if q.method() == reqwest::Method::POST { let v: Value = serde_json::from_slice(q.body().and_then(|b| b.as_bytes()).unwrap_or(b"null")).unwrap_or_default(); let a = v["assertion"].as_str().unwrap_or("").to_string(); let (k, c) = a.split_once('|').unwrap_or(("", "null")); let c: Value = serde_json::from_str(c).unwrap_or_default(); return Reply::ok(json!({"access_token": format!("{k}/{}", c["iss"].as_str().unwrap_or(""))}).to_string().as_bytes()); }
        let mut h: BTreeMap<String, String> = q.headers().iter().map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into())).collect(); let auth = h.remove("authorization"); h.remove("user-agent"); h.remove("accept-encoding"); h.remove("range");
        let u = q.url(); l.lock().unwrap().push((u.to_string(), auth.clone(), h));
        // the debug files of a project are known by its token and address
        if u.query_pairs().any(|(k, _)| k == "debug_id" || k == "code_id") { return Reply::ok(json!([{"id": format!("{}{}", auth.unwrap_or_default().replace("Bearer ", ""), u.path().replace('/', "_")), "symbolType": "elf"}, {"id": "p", "symbolType": "proguard"}]).to_string().as_bytes()); }
        Reply::ok(b"file")
    }));
    let hs: [&[(&str, &str)]; 5] = [&[], &[("X-Key", "k1")], &[("authorization", "Basic abc")], &[("x-key", "k2"), ("bad header", "secret"), ("Cookie", "c=1")], &[("Authorization", "Bearer t"), ("symbolchecksum", "mine")]];
    for k in 0..if thorough() { 20000 } else { 1500 } {
        let dir = sc.0.join(k.to_string());
        let config = Config { cache_dir: Some(dir.clone()), deny_list_enabled: false, connect_to_reserved_ips: true, ..Config::default() };
        let mut sources: Vec<Value> = vec![];
        for n in 0..2 + r.below(4) { sources.push(match r.below(5) {
            0 | 1 | 2 if r.below(3) > 0 => json!({"type": "sentry", "id": format!("s{n}"), "url": *r.pick(&["https://sentry.example/api/p/", "https://sentry.example/api/q/", "http://sentry.example/api/p/", "https://sentry.example/api/p/?x=1"]), "token": *r.pick(&["ta", "tb", "t"])}),
            3 => json!({"type": "gcs", "id": format!("g{n}"), "bucket": *r.pick(&["b", "b2", "b/../c"]), "private_key": *r.pick(&["k1", "k2"]), "client_email": *r.pick(&["a@x", "b@x"]), "layout": {"type": "unified"}}),
            _ => json!({"type": "http", "id": format!("h{n}"), "url": *r.pick(&["https://sym.example/a/", "https://sym.example/b/", "https://sentry.example/api/p/"]), "headers": r.pick(&hs).iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>(), "layout": {"type": "unified"}}) }); }
        let mut id = ObjectId::default();
        if r.below(4) > 0 { id.debug_id = Some("c941d872-af1f-4f0c-a7ff-ad3d295fe153".parse().unwrap()); }
        if r.below(2) == 0 { id.code_id = Some("abcdef0123456789".parse().unwrap()); }
        if r.below(2) == 0 { id.debug_checksum = Some("SHA256:1".into()); }
        let txt = format!("sources {sources:?}, {id:?}"); rep.case((k, &txt));
        let cfg: Vec<SourceConfig> = sources.iter().map(|s| serde_json::from_value(s.clone()).unwrap()).collect();
        log.lock().unwrap().clear();
        let got = guarded(|| rt.block_on(async {
            let svc = symbolicator_service::download::DownloadService::new(&config, tokio::runtime::Handle::current());
            let index = SourceIndexService::new(Caches::from_config(&config).unwrap().source_index, SharedCacheService::new(None, tokio::runtime::Handle::current()), svc.clone());
            // every source on its own, twice, with one service
            let mut out = vec![];
            for round in 0..2 { for (i, s) in cfg.iter().enumerate() { let files = list_files(&svc, &index, std::slice::from_ref(s), &[FileType::ElfDebug], &id).await; let asked = std::mem::take(&mut *log.lock().unwrap()); out.push((round, i, files, asked)); } }
            let mut all = vec![];
            for (round, i, files, asked) in out { let mut got = vec![]; for (n, f) in files.into_iter().enumerate() { let ok = svc.download(f, sc.0.join(format!("f{round}-{i}-{n}"))).await.is_ok(); got.push((ok, std::mem::take(&mut *log.lock().unwrap()))); } all.push((round, i, asked, got)); }
            all
        }));
        std::fs::remove_dir_all(&dir).ok();
        let got = match got { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{txt}: {e}")); continue; } };
        let mut asked_before: BTreeSet<(String, String)> = Default::default();
        for (_, i, asked, got) in &got {
            let s = &sources[*i]; let (ty, str) = (s["type"].as_str().unwrap(), |n: &str| s[n].as_str().unwrap().to_string());
            if ty == "sentry" {
                let mut u: reqwest::Url = str("url").parse().unwrap(); let token = str("token"); let path = u.path().replace('/', "_"); let file = { let mut f = u.clone(); f.query_pairs_mut().append_pair("id", &format!("{token}{path}")); f.to_string() };
                let known = match (&id.debug_id, &id.code_id) { (Some(d), _) => { u.query_pairs_mut().append_pair("debug_id", &d.to_string()); true }, (None, Some(c)) => { u.query_pairs_mut().append_pair("code_id", c.as_str()); true }, _ => false };
                let fresh = known && asked_before.insert((u.to_string(), token.clone()));
                let want: Vec<Asked> = if fresh { vec![(u.to_string(), Some(format!("Bearer {token}")), Default::default())] } else { vec![] };
                if *asked != want { rep.fail("query", format!("{txt}: source {i} was asked {asked:?} instead of {want:?}")); }
                let want: Vec<(bool, Vec<Asked>)> = if known { vec![(true, vec![(file, Some(format!("Bearer {token}")), Default::default())])] } else { vec![] };
                if *got != want { rep.fail("sentry-file", format!("{txt}: files of source {i} were fetched with {got:?} instead of {want:?}")); }
            } else {
                if !asked.is_empty() { rep.fail("listing", format!("{txt}: listing the files of source {i} asked {asked:?}")); }
                for (ok, a) in got { if !ok || a.len() != 1 { rep.fail("fetch", format!("{txt}: a file of source {i} was fetched with {a:?}, success {ok}")); }
                  for (u, auth, h) in a {
                    let to: reqwest::Url = u.parse().unwrap();
                    if ty == "gcs" {
                        let want = format!("Bearer {}/{}", str("private_key"), str("client_email"));
                        let seg: Vec<String> = to.path_segments().unwrap().map(String::from).collect();
                        if auth.as_deref() != Some(&*want) || !h.is_empty() || to.origin().ascii_serialization() != "https://storage.googleapis.com" || seg.len() != 6 || seg[..3] != ["storage", "v1", "b"] || seg[3] != str("bucket").replace('/', "%2F") || seg[4] != "o" { rep.fail("gcs", format!("{txt}: a file of source {i} was fetched from {u} with {auth:?} {h:?} instead of {want}")); }
                    } else {
                        let mut own: BTreeMap<String, String> = Default::default();
                        for (k, v) in s["headers"].as_object().unwrap() { if !k.contains(' ') { own.insert(k.to_lowercase(), v.as_str().unwrap().into()); } }
                        if let Some(c) = &id.debug_checksum { own.entry("symbolchecksum".into()).or_insert(c.clone()); }
                        let want_auth = own.remove("authorization");
                        // given twice, a header is sent twice, and the stand-in shows the last
                        let mut h = h.clone(); if let (Some(a), Some(b)) = (own.get_mut("symbolchecksum"), h.get_mut("symbolchecksum")) { *a = "c".into(); *b = "c".into(); }
                        if *auth != want_auth || h != own || !u.starts_with(&str("url")) { rep.fail("http", format!("{txt}: a file of source {i} was fetched from {u} with {auth:?} {h:?} instead of {want_auth:?} {own:?}")); }
                    }
                } }
            }
        }
        if k % 150 == 3 { rep.sample(format!("{txt} -> {got:?}")); }
    }
    rep.done();
}
