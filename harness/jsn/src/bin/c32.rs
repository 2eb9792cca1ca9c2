//! Who is given the access token of a Sentry source: requests for JavaScript files whose addresses are below the source's own, almost, or elsewhere
use std::sync::{Arc, Mutex};
use reqwest::vp::Reply;
use serde_json::{json, Value};
use symbolicator_js::{interface::*, SourceMapService};
use symbolicator_service::{config::Config, services::SharedServices, types::*};
use symbolicator_sources::SentrySourceConfig;
use vp_jsn::*;
use vp_svc::*;
const SOURCES: [&str; 6] = ["https://sentry.example/api/0/projects/o/p/artifact-lookup/", "https://sentry.example/", "http://sentry.example:8080/api", "https://sentry.example/api/lookup?project=1", "http://[::1]/api", "https://other.example/api/0/"];
/// addresses near those of a source
fn near(s: &str, r: &mut rng::Rng) -> String {
    let bare = s.trim_end_matches('/'); let (scheme, rest) = s.split_once("://").unwrap(); let (host, path) = rest.split_at(rest.find('/').unwrap());
    match r.below(18) {
        0 | 1 => format!("{s}{}", if s.contains('?') { "&download=7" } else { "?download=7" }), 2 => format!("{s}files/1"), 3 => s.to_string(), 4 => format!("{bare}-evil.example/files/1"), 5 => format!("{scheme}://{host}.evil.example{path}"),
        6 => format!("{scheme}://{host}@evil.example{path}"), 7 => format!("{}://{host}{path}", if scheme == "http" { "https" } else { "http" }), 8 => format!("{scheme}://{}:444{path}files", host.split(":8").next().unwrap()), 9 => format!("https://evil.example/?next={s}"), 10 => format!("https://evil.example/{s}/x"),
        11 => format!("{scheme}://{host}/elsewhere/1"), 12 => format!("{}://{}{path}file", scheme.to_uppercase(), host.to_uppercase()), 13 => format!("{s}#{}", r.below(3)), 14 => format!("{scheme}://user:pw@{host}{path}"), 15 => "https://storage.example/bucket/file?signature=abc".into(), 16 => format!("{scheme}://{host}{path}../../../../x"), _ => SOURCES[r.below(6) as usize].into() }
}
fn main() {
    let mut rep = Rep::new("requests for one JavaScript file at a time, from up to four Sentry sources (six addresses, three tokens, the same address with another token among them), with the files at the source's own address, longer ones, other hosts, ports, schemes, paths, user names, and addresses that merely contain it; every request the service makes");
    let mut r = rng::Rng::new(seed() + 32); let sc = Scratch::new("c32"); let rt = rt_paused();
    // the answers of the lookup API by address up to the query and token, and the files
    type World = (Vec<(String, String, Value)>, Vec<(String, String)>); let world: Arc<Mutex<World>> = Default::default(); let log: Arc<Mutex<Vec<(String, Option<String>)>>> = Default::default(); let (w, l) = (world.clone(), log.clone());
    reqwest::vp::install(Arc::new(move |q, _| {
        let auth = q.headers().get("authorization").and_then(|v| v.to_str().ok()).map(String::from); let u = q.url().to_string(); l.lock().unwrap().push((u.clone(), auth.clone())); let w = w.lock().unwrap();
        if let Some((_, f)) = w.1.iter().find(|(a, _)| *a == u) { return Reply::ok(f.as_bytes()); }
        match w.0.iter().find(|(b, t, _)| u.starts_with(b) && auth == Some(format!("Bearer {t}"))) { Some((_, _, v)) => Reply::ok(&serde_json::to_vec(v).unwrap()), None => Reply::status(401, b"") }
    }));
    for k in 0..if thorough() { 12000 } else { 900 } {
        let dir = sc.0.join(k.to_string()); std::fs::create_dir_all(&dir).unwrap();
        let svc = { let _g = rt.enter(); SharedServices::new(Config { deny_list_enabled: false, cache_dir: Some(dir.clone()), connect_to_reserved_ips: true, ..Config::default() }, rt.handle().clone()).unwrap() };
        let js = SourceMapService::new(&svc);
        // the same few addresses and tokens, with the same release or not
        let s = *r.pick(&SOURCES); let sources: Vec<(String, String)> = (0..1 + r.below(4)).map(|_| (if r.below(3) == 0 { r.pick(&SOURCES).to_string() } else { s.to_string() }, r.pick(&["secret-a", "secret-b", "secret-a "]).trim().to_string() + r.pick::<&str>(&["", "", "x"]))).collect();
        for (n, (s, token)) in sources.iter().enumerate() {
            let url: reqwest::Url = s.parse().unwrap();
            let file = near(s, &mut r); let Ok(file) = file.parse::<reqwest::Url>() else { continue };
            let text = format!("code of {token} at {s} ({n})");
            let mut base = url.clone(); base.set_query(None);
            let at = { let mut f = file.clone(); f.set_fragment(None); f.to_string() };
            // a server that answers every query of this token with this file
            *world.lock().unwrap() = (vec![(base.to_string(), token.clone(), json!([{"type": "file", "id": n.to_string(), "url": file.as_str(), "abs_path": "~/app.js", "headers": {"x-n": n.to_string()}}]))], vec![(file.to_string(), text.clone()), (at, text.clone())]);
            log.lock().unwrap().clear();
            let source: SentrySourceConfig = serde_json::from_value(json!({"id": "sentry:project", "type": "sentry", "url": s, "token": token})).unwrap();
            let release = format!("r{n}"); // no two requests have the same query
            let release = if r.below(2) == 0 && !sources[..n].iter().any(|o| o == &(s.clone(), token.clone())) { "r".to_string() } else { release };
            let request = SymbolicateJsStacktraces { platform: None, scope: Scope::Scoped(format!("p{n}").into()), source: Arc::new(source), release: Some(release.clone()), dist: None,
                stacktraces: vec![JsStacktrace { frames: vec![frame("https://x.example/app.js", 1, Some(1), None)] }], modules: vec![], scraping: { let mut s = ScrapingConfig::default(); s.enabled = false; s }, apply_source_context: true };
            let got = guarded(|| rt.block_on(js.clone().symbolicate_js(request)));
            let txt = format!("source {s} token {token} release {release} (after {:?}), file at {file}", &sources[..n]);
            rep.case((k, n, &txt));
            let got = match got { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{txt}: {e}")); break; } };
            let log = log.lock().unwrap().clone();
            let own = file.as_str().starts_with(url.as_str());
            let mut queries = 0;
            for (u, auth) in &log {
                // where it goes, taken apart by the url crate
                let to: reqwest::Url = u.parse().unwrap(); let query = u.contains("release=");
                if query { queries += 1; }
                if query { if auth.as_deref() != Some(&*format!("Bearer {token}")) || to.path() != url.path() || to.origin() != url.origin() { rep.fail("query", format!("{txt}: the query {u} was made with {auth:?}")); } continue; }
                let want = own.then(|| format!("Bearer {token}"));
                if *auth != want { rep.fail("token", format!("{txt}: {u} was asked for with {auth:?} instead of {want:?}")); }
                if auth.is_some() && (to.origin() != url.origin()) { rep.fail("leak", format!("{txt}: the token went to {u}")); }
            }
            if queries == 0 { rep.fail("shared", format!("{txt}: the answer to somebody else's query was used")); }
            let line = got.raw_stacktraces[0].frames[0].context_line.clone().unwrap_or_default();
            if line != text { rep.fail("answer", format!("{txt}: the file is {line:?} instead of {text:?}; {log:?}")); }
            if k % 90 == 3 { rep.sample(format!("{txt} -> {log:?}")); }
        }
        std::fs::remove_dir_all(&dir).ok();
    }
    rep.done();
}
