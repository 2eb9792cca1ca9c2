//! The index of a symbol store is the union of its upload logs
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use symbolicator_service::{caching::{Caches, SharedCacheService}, config::Config, download::SourceIndexService, types::Scope};
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
/// the entry of a line of an upload log: the second of the pieces between quotes, if it is `name\id`
fn entry(line: &[char]) -> Option<String> {
    let a = line.iter().position(|c| *c == '"')?; let rest = &line[a + 1..];
    let field = &rest[..rest.iter().position(|c| *c == '"').unwrap_or(rest.len())];
    let b = field.iter().position(|c| *c == '\\')?;
    let (name, id): (String, String) = (field[..b].iter().collect(), field[b + 1..].iter().collect());
    Some(format!("{name}/{id}/{name}"))
}
fn entries(log: &str) -> BTreeSet<String> {
    let c: Vec<char> = log.chars().collect();
    let n = c.split(|c| *c == '\n').count(); c.split(|c| *c == '\n').enumerate().filter_map(|(i, l)| entry(if l.last() == Some(&'\r') && i + 1 < n { &l[..l.len() - 1] } else { l })).collect()
}
fn main() {
    let mut rep = Rep::new("symbol stores (HTTP) of up to twelve upload logs that grow, overlap, repeat lines, hold lines of other forms or are empty; asked for over several starts of the service with one cache directory, two sources and two scopes at a time; last ids padded, bare, between white space or no number; logs missing, refused or failing. The index has to be the union of the logs, or empty if one of them or the last id could not be read");
    let sc = Scratch::new("c05s"); let rt = rt(); let mut r = rng::Rng::new(seed() + 5);
    let world: Arc<Mutex<HashMap<String, Result<Vec<u8>, u16>>>> = Default::default(); let w2 = world.clone();
    reqwest::vp::install(Arc::new(move |q, _| match w2.lock().unwrap().get(q.url().as_str()) { Some(Ok(b)) => Reply::ok(b), Some(Err(c)) => Reply::status(*c, b""), None => Reply::status(404, b"") }));
    let names = ["a.pdb", "core.dll", "x", "é.pdb", "a b.exe", "a.pd_"]; let ids = ["1", "0BADC0DE1", "ABCDEF0123456789ABCDEF01234567891", ""];
    for k in 0..if thorough() { 4000 } else { 250 } {
        let cache = sc.0.join(format!("cache{k}"));
        let config = Config { cache_dir: Some(cache.clone()), deny_list_enabled: false, ..Config::default() };
        let mut logs: Vec<Vec<String>> = vec![vec![]; 2]; // of either source
        let (public, same) = (r.below(2) == 0, r.below(2) == 0);
        let mut broken_before = [false; 2];
        for start in 0..1 + r.below(3) {
            world.lock().unwrap().clear(); let mut want = vec![];
            for s in 0..2 {
                for _ in 0..r.below(if k % 10 == 0 { 7 } else { 3 }) {
                    let mut log = String::new();
                    for _ in 0..r.below(4) {
                        let (n, i) = (*r.pick(&names), *r.pick(&ids));
                        log += &match r.below(9) { 0 => format!("\"{n}\",\"{i}\""), 1 => format!("{n}\\{i}"), 2 => format!("000,add,\"{n}\\{i}\",\"p\""), 3 => String::new(), 4 => format!("\"{n}\\{i}"), _ => format!("\"{n}\\{i}\",\"\\\\host\\share\\{n}\"") };
                        log += r.pick::<&str>(&["\n", "\r\n", "\n\n"]);
                    }
                    if r.below(3) == 0 { log.pop(); }
                    logs[s].push(log);
                }
                let base = format!("https://store{s}.example/sym/000Admin/"); let n = logs[s].len();
                let mut w = world.lock().unwrap(); let mut bad = false;
                for (i, l) in logs[s].iter().enumerate() {
                    let lost = r.below(25) == 0;
                    if lost { bad = true; } w.insert(format!("{base}{:010}", i + 1), if lost { Err(*r.pick(&[404u16, 403, 500])) } else { Ok(l.clone().into_bytes()) });
                }
                // one more than the last id says
                w.insert(format!("{base}{:010}", n + 1), Ok(b"\"ghost.pdb\\1\",\"x\"\n".to_vec())); w.insert(format!("{base}{:010}", 0), Ok(b"\"zero.pdb\\1\",\"x\"\n".to_vec()));
                let id = match r.below(12) { 0 => "none".into(), 1 => format!("{n}"), 2 => format!(" {n}\r\n"), _ => format!("{n:010}") };
                if id == "none" { bad = true; } w.insert(format!("{base}lastid.txt"), Ok(id.into_bytes()));
                want.push((logs[s].iter().flat_map(|l| entries(l)).collect::<BTreeSet<_>>(), bad));
            }
            rep.case((k, start, format!("{logs:?}")));
            let got = guarded(|| rt.block_on(async {
                let caches = Caches::from_config(&config).unwrap();
                let svc = symbolicator_service::download::DownloadService::new(&config, tokio::runtime::Handle::current());
                let shared = SharedCacheService::new(None, tokio::runtime::Handle::current());
                let index = SourceIndexService::new(caches.source_index, shared, svc);
                let mut out = vec![];
                for s in 0..2 {
                    let source: SourceConfig = serde_json::from_value(serde_json::json!({"type": "http", "id": if same { "store".to_string() } else { format!("store{s}") }, "url": format!("https://store{s}.example/sym/"), "layout": {"type": "symstore"}, "has_index": true, "is_public": public})).unwrap();
                    let scope = Scope::Scoped(if same { format!("scope{s}").into() } else { "one".into() });
                    out.push(match index.fetch_index(scope, &source).await { Some(SourceIndex::Symstore(i)) => Some(i.iter().map(String::from).collect::<BTreeSet<_>>()), None => None });
                }
                out
            }));
            let got = match got { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{logs:?}: {e}")); break; } };
            for s in 0..2 {
                let (all, bad) = &want[s];
                match &got[s] {
                    None => rep.fail("none", format!("no index for the logs {:?}", logs[s])),
                    Some(g) if g == all => {}
                    // cached logs may stand in for lost ones; a failure may be remembered for a while
                    Some(g) if g.is_empty() && (*bad || broken_before[s]) => {}
                    Some(g) => rep.fail("union", format!("start {start}: the logs {:?} give the index {g:?} instead of {all:?}", logs[s])),
                }
                broken_before[s] |= *bad;
            }
            if k == 20 { rep.sample(format!("{:?} -> {:?}", logs[0], got[0])); }
        }
        let _ = std::fs::remove_dir_all(&cache);
    }
    // many logs: every one counts
    for n in if thorough() { vec![300, 1100, 11_000, 70_000] } else { vec![300, 1100] } {
        let cache = sc.0.join(format!("many{n}"));
        let config = Config { cache_dir: Some(cache.clone()), deny_list_enabled: false, ..Config::default() };
        let mut w = world.lock().unwrap(); w.clear(); w.insert("https://store0.example/sym/000Admin/lastid.txt".into(), Ok(format!("{n:010}").into_bytes()));
        for i in 1..=n { w.insert(format!("https://store0.example/sym/000Admin/{i:010}"), Ok(format!("000,add,\"n{i}.pdb\\{i}\",\"p\"\n").into_bytes())); }
        drop(w); rep.case(("many", n));
        let got = guarded(|| rt.block_on(async {
            let svc = symbolicator_service::download::DownloadService::new(&config, tokio::runtime::Handle::current());
            let index = SourceIndexService::new(Caches::from_config(&config).unwrap().source_index, SharedCacheService::new(None, tokio::runtime::Handle::current()), svc);
            let source: SourceConfig = serde_json::from_value(serde_json::json!({"type": "http", "id": "many", "url": "https://store0.example/sym/", "layout": {"type": "symstore"}, "has_index": true})).unwrap();
            match index.fetch_index(Scope::Scoped("one".into()), &source).await { Some(SourceIndex::Symstore(i)) => i.iter().map(String::from).collect::<BTreeSet<_>>(), None => Default::default() }
        }));
        let want: BTreeSet<String> = (1..=n).map(|i| format!("n{i}.pdb/{i}/n{i}.pdb")).collect();
        match got { Ok(g) if g == want => {}, Ok(g) => rep.fail("many", format!("{n} logs with an entry each give an index of {} entries, without {:?}", g.len(), want.difference(&g).next())), Err(e) => rep.fail("panic", format!("{n} logs: {e}")) }
        let _ = std::fs::remove_dir_all(&cache);
    }
    rep.done();
}
