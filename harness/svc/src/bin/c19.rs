//! Candidate lists: any sequence of merges and status changes against a map, and the list of real lookups
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use symbolicator_service::{config::Config, objects::*, services::SharedServices, types::Scope};
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
type K = (String, String);
fn key(c: &ObjectCandidate) -> K { (c.source.as_str().to_string(), c.location.to_string()) }
fn info(n: usize) -> ObjectUseInfo { match n { 0 => ObjectUseInfo::None, 1 => ObjectUseInfo::Ok, 2 => ObjectUseInfo::Malformed, _ => ObjectUseInfo::Error { details: format!("e{n}") } } }
fn down(n: usize) -> ObjectDownloadInfo { match n { 0 => ObjectDownloadInfo::NotFound, 1 => ObjectDownloadInfo::Malformed, 2 => ObjectDownloadInfo::NoPerm { details: "no".into() }, 3 => ObjectDownloadInfo::Ok { features: ObjectFeatures { has_symbols: true, ..Default::default() } }, _ => ObjectDownloadInfo::Error { details: format!("d{n}") } } }
const S: [&str; 7] = ["", "a", "a ", "b", "B", "sentry:project", "é"];
const L: [&str; 8] = ["", "a", "b", "http://x/1", "http://x/10", "http://x/2", "z", "é"];
fn candidate(r: &mut rng::Rng) -> ObjectCandidate { ObjectCandidate { source: SourceId::new(*r.pick(&S)), location: RemoteFileUri::new(*r.pick(&L)), download: down(r.below(6)), unwind: info(r.below(5)), debug: info(r.below(5)) } }
/// the list is the map: sorted, unique, and with exactly these values
fn check(rep: &mut Rep, what: &str, got: &AllObjectCandidates, want: &BTreeMap<K, ObjectCandidate>) {
    let g: Vec<ObjectCandidate> = got.iter().cloned().collect();
    let w: Vec<ObjectCandidate> = want.values().cloned().collect();
    if g != w { rep.fail("list", format!("{what}: the list is {:?} instead of {:?}", g.iter().map(|c| (key(c), c.clone())).collect::<Vec<_>>(), w)); }
    if got.clone().into_inner() != g || got.is_empty() != g.is_empty() { rep.fail("list", format!("{what}: into_inner or is_empty differ from iter")); }
}
fn over(m: &mut BTreeMap<K, ObjectCandidate>, c: &ObjectCandidate) {
    match m.get_mut(&key(c)) {
        Some(o) => { o.download = c.download.clone(); if c.unwind != ObjectUseInfo::None { o.unwind = c.unwind.clone(); } if c.debug != ObjectUseInfo::None { o.debug = c.debug.clone(); } }
        None => { m.insert(key(c), c.clone()); }
    }
}
fn built(v: &[ObjectCandidate]) -> BTreeMap<K, ObjectCandidate> { let mut m = BTreeMap::new(); for c in v { m.entry(key(c)).or_insert(c.clone()); } m }
fn operations(rep: &mut Rep) {
    let mut r = rng::Rng::new(seed());
    for n in 0..if thorough() { 60000 } else { 6000 } {
        let v: Vec<_> = (0..r.below(14)).map(|_| candidate(&mut r)).collect();
        let mut want = built(&v);
        let mut got = match guarded(|| AllObjectCandidates::from(v.clone())) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("from({v:?}) panics: {e}")); continue; } };
        rep.case((n, 0, format!("{v:?}")));
        check(rep, &format!("from({:?})", v.iter().map(key).collect::<Vec<_>>()), &got, &want);
        for _ in 0..r.below(10) {
            let before = format!("{:?}", want);
            let what;
            match r.below(4) {
                0 => { let c = candidate(&mut r); what = format!("merge_one({c:?}) into {before}"); got.merge_one(&c); over(&mut want, &c); }
                1 => { let v: Vec<_> = (0..r.below(8)).map(|_| candidate(&mut r)).collect(); let o = AllObjectCandidates::from(v.clone()); what = format!("merge({:?}) into {before}", o); got.merge(&o); for c in built(&v).values() { over(&mut want, c); } }
                _ => {
                    let k = if r.below(4) > 0 && !want.is_empty() { let n = r.below(want.len()); want.keys().nth(n).unwrap().clone() } else { (r.pick(&S).to_string(), r.pick(&L).to_string()) };
                    let (st, i) = (r.below(3), info(r.below(5)));
                    what = format!("set_status({}, {k:?}, {i:?}) on {before}", ["debug", "unwind", "none"][st]);
                    got.set_status([CandidateStatus::Debug, CandidateStatus::Unwind, CandidateStatus::None].into_iter().nth(st).unwrap(), &SourceId::new(k.0.clone()), &RemoteFileUri::new(k.1.clone()), i.clone());
                    if let Some(o) = want.get_mut(&k) { match st { 0 => o.debug = i, 1 => o.unwind = i, _ => {} } }
                }
            }
            rep.case(&what);
            check(rep, &what, &got, &want);
        }
    }
}
/// what a server has under one URL
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum F { Missing, Denied, Bad, Broken, Good }
fn lookups(rep: &mut Rep) {
    let mut r = rng::Rng::new(seed() + 7);
    let rt = rt_paused(); let sc = Scratch::new("c19");
    let seen: Arc<Mutex<(BTreeMap<String, F>, Vec<F>, u64)>> = Default::default(); let s2 = seen.clone();
    reqwest::vp::install(Arc::new(move |q, _| {
        let u = q.url().to_string();
        let mut s = s2.lock().unwrap();
        if u.starts_with("https://sentry.example/") { let some = s.2 & 1 == 1;
            if !u.contains("?id=") { return Reply::ok(if some { br#"[{"id": "7", "symbolType": "elf"}, {"id": "8", "symbolType": "elf"}]"# } else { b"[]" }); } }
        let n = s.1.len(); let h = u.bytes().fold(s.2, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) as usize;
        let f = *s.0.entry(u).or_insert_with(|| F::Missing); let f = if f == F::Missing { let f = s.1[h % n]; f } else { f };
        let k = q.url().to_string(); s.0.insert(k, f);
        match f { F::Missing => Reply::status(404, b""), F::Denied => Reply::status(403, b""), F::Bad => Reply::ok(b"no object file at all"), F::Broken => Reply::status(500, b""),
            F::Good => Reply::ok(b"MODULE Linux x86_64 000000000000000000000000000000000 crash\nPUBLIC 1000 0 main\n") }
    }));
    let all = [F::Missing, F::Denied, F::Bad, F::Broken, F::Good];
    for n in 0..if thorough() { 400 } else { 60 } {
        let dir = sc.0.join(n.to_string()); std::fs::create_dir_all(&dir).unwrap();
        let svc = { let _g = rt.enter(); SharedServices::new(Config { deny_list_enabled: false, cache_dir: Some(dir), connect_to_reserved_ips: true, ..Config::default() }, rt.handle().clone()).unwrap() };
        let mut kinds: Vec<F> = vec![]; for _ in 0..4 { kinds.push(*r.pick(&all)); }
        *seen.lock().unwrap() = (BTreeMap::new(), kinds.clone(), r.next());
        let (nsrc, twice, sentry) = (r.below(3), r.below(4) == 0, r.below(2) == 0);
        let mut sources: Vec<SourceConfig> = vec![];
        for i in 0..nsrc { sources.push(serde_json::from_value(serde_json::json!({"id": format!("h{}", 5 - i), "type": "http", "url": format!("https://h{i}.example/"), "layout": {"type": *r.pick(&["native", "unified", "ssqp"])}})).unwrap()); }
        if twice && nsrc > 0 { sources.push(sources[0].clone()); }
        if sentry { sources.push(serde_json::from_value(serde_json::json!({"id": "sentry:project", "type": "sentry", "url": "https://sentry.example/api/", "token": "t"})).unwrap()); }
        let ids: BTreeSet<String> = sources.iter().map(|s| s.id().as_str().to_string()).collect();
        // a source without files of this type: nothing is tried there
        let none = r.below(5) == 0 && nsrc > 0;
        if none { sources.push(serde_json::from_value(serde_json::json!({"id": "only-pdb", "type": "http", "url": "https://nothing.example/", "filters": {"filetypes": ["pdb"]}, "layout": {"type": "native"}})).unwrap()); }
        let id = ObjectId { debug_id: Some("00000000-0000-0000-0000-000000000000-0".parse::<symbolic::common::DebugId>().unwrap()), code_id: Some("aabbccddeeff0011".parse().unwrap()), code_file: Some("crash".into()), debug_file: Some("crash.pdb".into()), ..Default::default() };
        let purpose = *r.pick(&[ObjectPurpose::Debug, ObjectPurpose::Unwind, ObjectPurpose::Source]);
        let q = FindObject { filetypes: &[FileType::ElfDebug, FileType::ElfCode, FileType::Breakpad], purpose, scope: Scope::Global, identifier: id, sources: sources.clone().into() };
        let got = match guarded(|| rt.block_on(svc.objects.find(q))) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("find panics: {e}")); continue; } };
        let s = seen.lock().unwrap();
        let list: Vec<ObjectCandidate> = got.candidates.iter().cloned().collect();
        rep.case((n, format!("{list:?}")));
        let what = format!("looking up in {:?} (the server has {:?})", sources.iter().map(|s| s.id().as_str()).collect::<Vec<_>>(), s.0);
        if list.windows(2).any(|w| key(&w[0]) >= key(&w[1])) { rep.fail("sorted", format!("{what}: {:?} is not sorted and unique", list.iter().map(key).collect::<Vec<_>>())); }
        let mut tried: BTreeMap<String, usize> = BTreeMap::new();
        for (url, f) in &s.0 {
            // which source an URL belongs to
            let (src, loc) = match url.strip_prefix("https://h") { Some(t) => (format!("h{}", 5 - t[..1].parse::<usize>().unwrap()), url.clone()), None if url.contains("?id=") => ("sentry:project".into(), format!("sentry://project_debug_file/{}", url.rsplit("?id=").next().unwrap().split('&').next().unwrap())), None => continue };
            *tried.entry(src.clone()).or_default() += 1;
            let Some(c) = list.iter().find(|c| key(c) == (src.clone(), loc.clone())) else { rep.fail("complete", format!("{what}: no candidate for {src} {loc} in {:?}", list.iter().map(key).collect::<Vec<_>>())); continue; };
            let ok = match (f, &c.download) { (F::Missing, ObjectDownloadInfo::NotFound) => true, (F::Denied, ObjectDownloadInfo::NoPerm { .. }) => true, (F::Bad, ObjectDownloadInfo::Malformed) => true, (F::Broken, ObjectDownloadInfo::Error { .. }) => true,
                (F::Good, ObjectDownloadInfo::Ok { features }) => features.has_symbols && !features.has_debug_info && !features.has_sources, _ => false };
            if !ok || c.debug != ObjectUseInfo::None || c.unwind != ObjectUseInfo::None { rep.fail("download", format!("{what}: {f:?} at {url} is reported as {c:?}")); }
        }
        for id in ids.iter().cloned().chain(none.then(|| "only-pdb".to_string())) {
            let n = list.iter().filter(|c| c.source.as_str() == id).count(); let t = tried.get(&id).copied().unwrap_or(0);
            if t == 0 && (n != 1 || list.iter().any(|c| c.source.as_str() == id && c.download != ObjectDownloadInfo::NotFound)) || t > 0 && n != t { rep.fail("complete", format!("{what}: {n} candidates of {id} for {t} locations tried: {:?}", list.iter().map(key).collect::<Vec<_>>())); }
        }
        rep.sample(format!("{what}: {:?}", list.iter().map(key).collect::<Vec<_>>()).chars().take(300).collect());
    }
}
fn main() {
    let mut rep = Rep::new("lists of up to 13 candidates of 7 source ids and 8 locations with any download and use information, up to 9 merges of one or many and status changes each, against a map; the candidates of lookups in up to 5 HTTP and Sentry sources whose files are missing, denied, broken, no object or fine, sources given twice or without any location");
    operations(&mut rep);
    lookups(&mut rep);
    rep.done();
}
