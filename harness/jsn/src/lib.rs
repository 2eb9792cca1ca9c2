//! Requests for JavaScript frames against a made-up release, and what the documentation says comes out of them
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use reqwest::vp::Reply;
use serde_json::{json, Value};
use symbolicator_js::{interface::*, SourceMapService};
use symbolicator_service::{config::Config, services::SharedServices, types::*};
use symbolicator_sources::SentrySourceConfig;
use vp_svc::*;
/// what the server has: the answer of the lookup API (by its query) and the files by their address
#[derive(Clone, Default, Debug)]
pub struct World { pub found: Vec<Value>, pub files: BTreeMap<String, Vec<u8>> }
pub struct Lab { rt: tokio::runtime::Runtime, sc: Scratch, n: usize, world: Arc<Mutex<World>>, log: Arc<Mutex<Vec<String>>> }
pub const API: &str = "https://sentry.example/api/lookup/";
impl Lab {
    pub fn new(name: &str) -> Lab {
        let (world, log): (Arc<Mutex<World>>, Arc<Mutex<Vec<String>>>) = Default::default(); let (w, l) = (world.clone(), log.clone());
        reqwest::vp::install(Arc::new(move |q, _| {
            let mut u = q.url().clone(); l.lock().unwrap().push(u.to_string()); u.set_fragment(None); let w = w.lock().unwrap();
            if u.as_str().starts_with(API) { return Reply::ok(&serde_json::to_vec(&w.found).unwrap()); }
            match w.files.get(u.as_str()) { Some(b) => Reply::ok(b), None => Reply::status(404, b"") }
        }));
        Lab { rt: rt_paused(), sc: Scratch::new(name), n: 0, world, log }
    }
    /// the response and what was asked of the server
    pub fn run(&mut self, world: World, frames: Vec<Vec<JsFrame>>, modules: &[(String, String)], release: Option<&str>, dist: Option<&str>, scrape: bool, context: bool) -> Result<(CompletedJsSymbolicationResponse, Vec<String>), String> {
        *self.world.lock().unwrap() = world; self.log.lock().unwrap().clear(); self.n += 1;
        let dir = self.sc.0.join(self.n.to_string()); std::fs::create_dir_all(&dir).unwrap();
        let source: SentrySourceConfig = serde_json::from_value(json!({"id": "sentry:project", "type": "sentry", "url": API, "token": "secret"})).unwrap();
        let mut scraping = ScrapingConfig::default(); scraping.enabled = scrape;
        let request = SymbolicateJsStacktraces { platform: None, scope: Scope::Global, source: Arc::new(source), release: release.map(String::from), dist: dist.map(String::from),
            stacktraces: frames.into_iter().map(|frames| JsStacktrace { frames }).collect(), modules: modules.iter().map(|(f, d)| JsModule { r#type: JsModuleType::Sourcemap, code_file: f.clone(), debug_id: d.clone() }).collect(), scraping, apply_source_context: context };
        let r = guarded(|| { let svc = { let _g = self.rt.enter(); SharedServices::new(Config { deny_list_enabled: false, cache_dir: Some(dir.clone()), connect_to_reserved_ips: true, ..Config::default() }, self.rt.handle().clone()).unwrap() };
            self.rt.block_on(SourceMapService::new(&svc).symbolicate_js(request)) });
        std::fs::remove_dir_all(&dir).ok();
        r.map(|r| (r, self.log.lock().unwrap().clone()))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sc { N(String), A, U }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Token { pub at: (u32, u32), pub name: Option<String>, pub scope: Sc, pub file: Option<String>, pub text: Option<String>, pub line: u32, pub col: u32 }
/// a source map as the stand-in reads it
pub fn map(t: &[Token]) -> String {
    let o = |x: &Option<String>| x.as_ref().map(|x| format!("+{x}")).unwrap_or("-".into());
    let mut s = String::from("VPMAP\n");
    for t in t { let sc = match &t.scope { Sc::N(n) => format!("N{n}"), Sc::A => "A".into(), Sc::U => "U".into() }; s += &format!("{}\t{}\t{}\t{sc}\t{}\t{}\t{}\t{}\n", t.at.0, t.at.1, o(&t.name), o(&t.file), o(&t.text), t.line, t.col); }
    s
}
pub fn frame(abs_path: &str, line: u32, col: Option<u32>, function: Option<&str>) -> JsFrame { JsFrame { abs_path: abs_path.into(), lineno: line, colno: col, function: function.map(String::from), ..Default::default() } }
/// an uploaded file of the release
pub fn artifact(id: usize, abs_path: &str, headers: &[(&str, &str)]) -> (Value, String) {
    let url = format!("https://sentry.example/files/{id}");
    (json!({"type": "file", "id": id.to_string(), "url": url, "abs_path": abs_path, "headers": headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>()}), url)
}
// ---- what the documentation says ---------------------------------------------------------------------
/// the address without its origin or tilde
pub fn relative(u: &str) -> &str { if let Some(r) = u.strip_prefix('~') { return r; } match u.split_once("://") { Some((_, r)) => match r.find('/') { Some(i) => &r[i..], None => r }, None => u } }
pub fn candidates(u: &str) -> Vec<String> {
    let u = u.split('#').next().unwrap(); let r = relative(u); let mut v = vec![u.to_string()];
    if let Some(i) = u.find('?') { v.push(u[..i].into()); } v.push(format!("~{r}")); if let Some(i) = r.find('?') { v.push(format!("~{}", &r[..i])); } v
}
pub fn join(base: &str, right: &str) -> String {
    if right.contains("://") || right.starts_with("webpack:") { return right.into(); }
    let (scheme, rest) = match base.find("://") { Some(i) => (&base[..i], &base[i + 3..]), None => ("file", base) };
    // the path of an address ends at its query or fragment
    let rest = if scheme.starts_with("http") && scheme.len() < 6 && (scheme.len() == 4 || scheme.ends_with('s')) { &rest[..rest.find(['?', '#']).unwrap_or(rest.len())] } else { rest };
    let right = right.strip_prefix('~').unwrap_or(right); let mut parts: Vec<&str> = rest.split('/').collect(); let host = parts[0];
    if right.starts_with('/') { return if scheme == "file" { right.into() } else if right.starts_with("//") { format!("{scheme}:{right}") } else { format!("{scheme}://{host}{right}") }; }
    let http = scheme == "http" || scheme == "https";
    let mut out = String::new();
    if scheme != "file" { out = format!("{scheme}://{host}"); parts.remove(0); } else if host.is_empty() { parts.remove(0); }
    parts.pop();
    let mut first = true;
    for s in right.split('/') {
        if s == ".." { if parts.pop().is_some() || http { continue; } }
        if s == "." && (http || first) { continue; }
        first = false; parts.push(s);
    }
    for p in parts { if !p.is_empty() { out += "/"; out += p; } }
    out
}
/// the path of a file without origin, query, fragment and suffixes
pub fn stem(u: &str) -> String {
    let r = relative(u); let r = &r[..r.find(['?', '#']).unwrap_or(r.len())]; let Some(_) = r.find('/') else { return r.into() };
    let end = r.rfind('/').unwrap(); let (dir, mut name) = (&r[..end], &r[end + 1..]);
    while let Some(n) = [".min", ".js", ".map", ".cjs", ".mjs", ".ts", ".d", ".jsx", ".tsx"].iter().find_map(|s| name.strip_suffix(s)) { name = n; }
    format!("{dir}/{name}")
}
pub fn fold(f: &str) -> String {
    let v: Vec<&str> = f.split('.').collect(); let n = v.len() - 1; let mut out = String::new(); let mut i = 0;
    while i < n { let mut k = i + 1; while k < n && v[k] == v[i] { k += 1; } if k - i == 1 { out += v[i]; } else { out += &format!("{{{}#{}}}", v[i], k - i); } out += "."; i = k; }
    out + v[n]
}
pub fn shown(raw: Option<&str>, token: &str, caller: Option<&str>) -> String {
    if !matches!(token, "<anonymous>" | "__webpack_require__" | "__webpack_modules__") { return token.into(); }
    match (caller, raw) { (Some(c), _) if !c.is_empty() => c.into(), (_, None) => token.into(), (_, Some(r)) => r.into() }
}
pub fn webpack(f: &str) -> String {
    if let Some(i) = f.find("/~/") { return format!("~/{}", &f[i + 3..]); }
    for p in ["webpack://", "webpack-internal://"] { if let Some(r) = f.strip_prefix(p) {
        let ns = r.find(|c: char| !(c.is_ascii_alphanumeric() || "_-@.".contains(c))).unwrap_or(r.len());
        if ns > 0 { if let Some(r) = r[ns..].strip_prefix("/./") { return format!("./{r}"); } }
        if let Some(r) = r.strip_prefix('/') { return r.into(); }
    } }
    f.into()
}
fn hex(s: &str, ns: &[usize]) -> bool { ns.contains(&s.len()) && s.bytes().all(|c| c.is_ascii_hexdigit()) }
pub fn module(u: &str) -> String {
    let p = relative(u); let p = p.split(['#', '?']).next().unwrap();
    let p = match p.rfind(['.', '/']) { Some(i) if p[i..].starts_with('.') => &p[..i], _ => p };
    let p = p.strip_suffix(".min").unwrap_or(p);
    let v: Vec<&str> = p.split('/').collect();
    if let Some(i) = v.iter().position(|s| hex(s, &[32, 40])) { return v[i + 1..].join("/"); }
    let mut p = p;
    while let Some(i) = p.find('/') {
        let c = p[..i].to_ascii_lowercase(); let version = c.strip_prefix('v').unwrap_or(&c);
        let folder = c.is_empty() || ["js", "script", "scripts", "javascript", "javascripts", "build", "static", "node_modules", "bower_components"].contains(&&*c) || c.starts_with(['_', '.', '~']) && !c.contains('\n')
            || version.split('.').all(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit())) || hex(&c, &[7, 8]);
        if !folder { break; } p = &p[i + 1..];
    }
    if let Some(i) = p.rfind(['-', '.']) { if p.len() - i > 7 && p[i + 1..].bytes().all(|c| c.is_ascii_hexdigit()) { p = &p[..i]; } }
    p.into()
}
/// texts made of pieces that mean something
pub fn text(r: &mut rng::Rng) -> String {
    let pool = ["/", "/", ".", "..", "~", "?", "#", ":", "://", "http://", "https://", "app:///", "file://", "webpack://", "webpack:///", "webpack-internal:///", "webpack://_N_E/./", "x.example", "foo", "foo", "bar", "js", "JavaScript", "static", "node_modules", "v1.0.2", "3", "1.", "deadbeef", "DEADBEE", "-deadbeef", ".1234567", "-123456", "d41d8cd98f00b204e9800998ecf8427e",
        "da39a3ee5e6b4b0d3255bfef95601890afd80709", "this_is_not_a_hash_but_long_enou", "\u{e9}\u{4e2d}\u{4e2d}", "_next", "/~/", "./", "../", ".min", ".js", ".map", ".min.js", ".d.ts", ".tsx", "x=1", "a b", "@scope", "<anonymous>", "\n", "%20", "\u{1f600}", "async "];
    (0..1 + r.below(8)).map(|_| *r.pick(&pool)).collect()
}
