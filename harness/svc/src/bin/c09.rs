//! Cache keys of tricky identities: equal ones agree, different ones differ, and every path has the documented shape
use std::collections::HashMap;
use std::sync::Arc;
use symbolicator_service::caches::{CachePathFormat, CacheVersion};
use symbolicator_service::caching::CacheKey;
use symbolicator_service::types::Scope;
use symbolicator_sources::*;
use vp_svc::*;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ident { scope: Option<String>, kind: &'static str, id: String, host: String, prefix: String, loc: String }
fn remote(i: &Ident) -> RemoteFile {
    let loc = SourceLocation::new(i.loc.clone());
    let base = |mut v: serde_json::Value| { v["id"] = i.id.clone().into(); v["layout"] = serde_json::json!({"type": "native"}); v };
    match i.kind {
        "filesystem" => FilesystemRemoteFile::new(Arc::new(serde_json::from_value(base(serde_json::json!({"path": format!("/{}/{}", i.host, i.prefix)}))).unwrap()), loc).into(),
        "http" => HttpRemoteFile::new(Arc::new(serde_json::from_value(base(serde_json::json!({"url": format!("http://{}/{}", i.host, i.prefix)}))).unwrap()), loc).into(),
        "s3" => S3RemoteFile::new(Arc::new(serde_json::from_value(base(serde_json::json!({"bucket": i.host, "prefix": i.prefix, "region": "us-east-1", "access_key": "a", "secret_key": "s"}))).unwrap()), loc).into(),
        "gcs" => GcsRemoteFile::new(Arc::new(serde_json::from_value(base(serde_json::json!({"bucket": i.host, "prefix": i.prefix, "private_key": "k", "client_email": "m"}))).unwrap()), loc).into(),
        _ => SentryRemoteFile::new(Arc::new(serde_json::from_value(serde_json::json!({"id": i.id, "url": "http://s/", "token": "t"})).unwrap()), true, SentryFileId(i.loc.as_str().into()), None).into(),
    }
}
fn scope(s: &Option<String>) -> Scope { match s { None => Scope::Global, Some(s) => Scope::Scoped(s.as_str().into()) } }
fn shape(p: &str, v: CacheVersion) -> bool {
    let hex = |s: &str, n: usize| s.len() == n && s.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c));
    let s: Vec<&str> = p.split('/').collect();
    s.len() == 4 && s[0] == format!("v{}", v.number) && match v.path_format { CachePathFormat::V1 => hex(s[1], 2) && hex(s[2], 6) && hex(s[3], 56), CachePathFormat::V2 => hex(s[1], 2) && hex(s[2], 2) && hex(s[3], 60) }
}
fn main() {
    let mut rep = Rep::new("cache keys and paths of every combination of a scope, source id, source kind, host, prefix and location drawn from lists with line breaks, quotes, percent escapes, query and fragment characters, non-ASCII text and the texts of other lines of a key (a random sample on the quick tier), each under several versions of both path formats; distinct by identity");
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let mut scopes: Vec<Option<String>> = vec![None];
    scopes.extend(s(&["global", "\"global\"", "Global", "", "a", "a\n", "a\n\nsource: s\nlocation: file:///h/a", "\"a\\n\"", "a\r", " a", "a ", "\"a\"", "\"", "ä"]).into_iter().map(Some));
    let ids = s(&["s", "S", "s\n", "s\nlocation: x", "\"s\\nlocation: x\"", "", "\"s\"", "s ", "\\n", "ſ"]);
    let locs = s(&["a", "A", "a b", "a%20b", "a+b", "a?b", "a#b", "a%3Fb", "a/b", "a%2Fb", "a\\b", "ä", "%C3%A4", "a:b", "a;b", "a&b=c", "a\u{2028}b", "\u{fe}", "'a'", "\"a\"", "a.b", "a,b", "a..b", "a%", "a%25", "%", "a?b#c", "a b c", "a%2520b", "0", "00", "a/b c/d", "a/b%20c/d", "a|b", "a^b", "a`b", "a{b}", "a[b]", "a<b>", "~a", "a@b", "a*b", "a!b", "a$b", "a(b)", "...", "a~b"]);
    let hosts = s(&["h", "h2"]); let prefixes = s(&["", "p", "p/q"]);
    let versions: Vec<CacheVersion> = [0u32, 1, 2, 9, 10, 12, 34, 1234, u32::MAX].iter().flat_map(|n| [CachePathFormat::V1, CachePathFormat::V2].map(|f| CacheVersion::new(*n as _, f))).collect();
    let mut seen: HashMap<String, (Ident, u32, bool)> = HashMap::new();
    let mut r = vp_svc::rng::Rng::new(seed());
    let mut all: Vec<Ident> = vec![];
    for sc in &scopes { for id in &ids { for kind in ["filesystem", "http", "s3", "gcs", "sentry"] { for host in &hosts { for prefix in &prefixes { for loc in &locs {
        if kind == "sentry" && (host != "h" || !prefix.is_empty()) { continue; }
        all.push(Ident { scope: sc.clone(), kind, id: id.clone(), host: host.clone(), prefix: prefix.clone(), loc: loc.clone() });
    } } } } } }
    let small = |i: &Ident| (i.host == "h" && i.prefix.is_empty()) as u32 + (i.scope.is_none() && i.id == "s") as u32 * 2;
    for (n, i) in all.iter().enumerate() {
        // all locations of one scope and id, all scopes and ids for a few locations, and a sample of the rest
        if !thorough() && small(i) < 2 && !(small(i) == 1 && ["a", "a%20b", "a b"].contains(&&*i.loc)) && r.below(24) != 0 { continue; }
        rep.case(i);
        let f = remote(i);
        let sc = scope(&i.scope);
        let k = match guarded(|| CacheKey::from_scoped_file(&sc, &f)) { Ok(k) => k, Err(e) => { rep.fail("panic", format!("{i:?}: {e}")); continue } };
        if k != CacheKey::from_scoped_file(&scope(&i.scope), &remote(i)) { rep.fail("pure", format!("{i:?}: two keys of one identity differ")); }
        if *k.scope() != sc { rep.fail("scope", format!("{i:?}: the key says {:?}", k.scope())); }
        let vs: &[CacheVersion] = if n % 50 == 0 { &versions } else { &versions[2..4] };
        for v in vs {
            let p = k.cache_path(*v);
            if p != CacheKey::from_scoped_file(&sc, &f).cache_path(*v) { rep.fail("pure", format!("{i:?}: two paths of one identity differ")); }
            if !shape(&p, *v) { rep.fail("shape", format!("{i:?} {v:?}: {p}")); }
            let me = (i.clone(), v.number as u32, matches!(v.path_format, CachePathFormat::V1));
            if let Some(o) = seen.insert(p.clone(), me.clone()) { if o != me { rep.fail("collision", format!("{o:?} and {me:?}: {p}")); } }
        }
        if n % 400 == 7 { rep.sample(format!("{i:?} -> {}", k.cache_path(versions[0]))); }
    }
    // bucket URIs by themselves: the documented form, and different keys of a bucket never share one
    let mut uris: HashMap<String, String> = HashMap::new();
    for scheme in ["s3", "gs"] { for loc in &locs {
        rep.case((scheme, loc));
        let u = RemoteFileUri::from_parts(scheme, "bucket", loc).to_string();
        if let Some(o) = uris.insert(u.clone(), loc.clone()) { rep.fail("uri", format!("{o:?} and {loc:?} of one bucket: {u}")); }
        if !u.starts_with(&format!("{scheme}://bucket/")) || u.contains(' ') || u.contains('\n') { rep.fail("uri", format!("{loc:?}: {u}")); }
        // decoding gives the location back
        let tail = &u[scheme.len() + 10..]; let mut b = vec![]; let t = tail.as_bytes(); let mut j = 0;
        while j < t.len() { if t[j] == b'%' && j + 2 < t.len() { b.push(u8::from_str_radix(&tail[j + 1..j + 3], 16).unwrap_or(b'?')); j += 3; } else { b.push(t[j]); j += 1; } }
        if String::from_utf8_lossy(&b) != *loc { rep.fail("uri", format!("{loc:?} decodes from {u} as {:?}", String::from_utf8_lossy(&b))); }
    } }
    if RemoteFileUri::from_parts("gs", "bucket", "path with/spaces") != RemoteFileUri::new("gs://bucket/path%20with/spaces") { rep.fail("uri", "the documented example".into()); }
    // scraped files, named by their URL
    let mut web: HashMap<String, String> = HashMap::new();
    for path in ["a", "A", "a?b", "a?b=1", "a?b=2", "a?", "a%3Fb", "a;b", "", "a//b", "a/b", "a%2Fb", "a?b#c", "a?B", "a%20b", "a+b"] { for host in ["http://h/", "https://h/", "http://h:8080/", "http://g/"] {
        let u: url::Url = format!("{host}{path}").parse().unwrap(); rep.case(u.as_str());
        let f: RemoteFile = HttpRemoteFile::from_url(u.clone(), true).into();
        let p = CacheKey::from_scoped_file(&Scope::Global, &f).cache_path(versions[2]);
        if let Some(o) = web.insert(p, u.to_string()) { rep.fail("web-collision", format!("{o} and {u} share a cache path ({})", f.uri())); }
    } }
    // keys built from two files (a derived cache and its auxiliary file)
    let two: Vec<Ident> = all.iter().filter(|i| i.scope.is_none() && i.host == "h" && i.prefix.is_empty() && ["a", "a b", "a%20b"].contains(&&*i.loc) && ["filesystem", "s3"].contains(&i.kind)).cloned().collect();
    let mut keys: HashMap<String, (Ident, Option<Ident>)> = HashMap::new();
    for a in &two { for b in std::iter::once(None).chain(two.iter().map(Some)) {
        rep.case((a, b, "two"));
        let mut k = CacheKey::scoped_builder(&Scope::Global);
        k.write_file_meta(&remote(a)).unwrap(); if let Some(b) = b { k.write_file_meta(&remote(b)).unwrap(); }
        let p = k.build().cache_path(versions[2]);
        if let Some(o) = keys.insert(p, (a.clone(), b.cloned())) { rep.fail("collision", format!("{o:?} and {:?}", (a, b))); }
    } }
    rep.done();
}
