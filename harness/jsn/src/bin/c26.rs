//! Where the files of a JavaScript frame come from: addresses put together from the pieces the rules know, and whole requests
use std::collections::{BTreeMap, BTreeSet};
use symbolicator_js::{interface::JsModuleErrorKind, utils};
use vp_jsn::*;
use vp_svc::*;
#[derive(Clone, Debug)]
enum What { Code { map: Option<String>, own: Option<String> }, Map(Vec<Token>), Text, Broken, Gone }
#[derive(Clone, Debug)]
struct Art { at: String, headers: Vec<(&'static str, String)>, what: What }
impl Art { fn body(&self, i: usize) -> String { match &self.what {
    What::Code { map, own } => format!("code{i}{}{}", map.as_ref().map(|m| format!("\n//# sourceMappingURL={m}")).unwrap_or_default(), own.as_ref().map(|d| format!("\n//# debugId={d}")).unwrap_or_default()),
    What::Map(t) => map(t), What::Text => format!("text{i}"), What::Broken => "{".into(), What::Gone => "".into() } } }
/// what a request of these artifacts looks like to the server, and what it comes to
struct Model<'a> { arts: &'a [Art], known: bool, release: Option<&'a str>, asked: BTreeSet<(BTreeSet<String>, BTreeSet<String>)> }
impl Model<'_> {
    fn get(&mut self, path: Option<&str>, id: Option<&str>) -> Option<usize> {
        for round in 0..2 {
            if self.known { if let Some(p) = path { if let Some(i) = candidates(p).iter().find_map(|u| self.arts.iter().position(|a| a.at == *u)) { return Some(i); } } }
            if round == 1 || id.is_none() && (path.is_none() || self.release.is_none()) { break; }
            let stems = match (path, self.release) { (Some(p), Some(_)) => BTreeSet::from([stem(p)]), _ => BTreeSet::new() };
            self.asked.insert((stems, id.map(String::from).into_iter().collect())); self.known = true;
        }
        None
    }
}
fn unbase(s: &str) -> Vec<Token> { s.lines().skip(1).map(|l| { let v: Vec<&str> = l.split('\t').collect(); let o = |x: &str| x.strip_prefix('+').map(String::from);
    Token { at: (v[0].parse().unwrap(), v[1].parse().unwrap()), name: o(v[2]), scope: Sc::U, file: o(v[4]), text: o(v[5]), line: v[6].parse().unwrap(), col: v[7].parse().unwrap() } }).collect() }
fn main() {
    let mut rep = Rep::new("addresses and references put together from the pieces the rules know (schemes, tildes, folders, dots, queries, fragments, suffixes, non-ASCII text); requests of up to four frames of up to three files over releases of up to ten artifacts at any of the addresses tried (some addresses with a second file), with source map headers, references in the text, embedded source maps, debug ids, missing and broken files, with and without a release and a distribution; artifact bundles only in the proof");
    let mut r = rng::Rng::new(seed() + 26);
    for k in 0..if thorough() { 3_000_000 } else { 300_000 } {
        let (t, u) = (text(&mut r), text(&mut r));
        rep.case((&t, &u));
        let got = guarded(|| utils::get_release_file_candidate_urls(&t).collect::<Vec<_>>());
        if got.as_ref() != Ok(&candidates(&t)) { rep.fail("addresses", format!("for {t:?} {got:?} are tried instead of {:?}", candidates(&t))); }
        let got = guarded(|| utils::extract_file_stem(&t));
        if got.as_ref() != Ok(&stem(&t)) { rep.fail("stem", format!("{t:?} is asked for as {got:?} instead of {:?}", stem(&t))); }
        let got = guarded(|| utils::join_paths(&t, &u));
        if got.as_ref() != Ok(&join(&t, &u)) { rep.fail("reference", format!("{u:?} in {t:?} stands for {got:?} instead of {:?}", join(&t, &u))); }
        if k % 20000 == 3 { rep.sample(format!("{u:?} in {t:?} stands for {:?}; {:?}; {:?}", join(&t, &u), stem(&t), candidates(&t))); }
    }
    let mut lab = Lab::new("c26");
    let bases = ["https://x.example/js/app.js", "http://x.example/app.min.js?v=1#f", "https://x.example/a.js?src=/q/b.js", "app:///main.jsbundle", "/local/static/file.js", "webpack:///boot.js?1", "~/tilde/t.min.js", "https://y.example/js/app.js"];
    let ids = ["c941d872-af1f-4f0c-a7ff-ad3d295fe153", "5b65abfb-2338-4f0b-b3b9-64c8f734d43f"];
    let refs = ["app.js.map", "../maps/a.map?x=1#y", "/root.map", "~/t/tilde.map", "https://cdn.example/m.map?v=2", "//host.example/m.map", "./././m.map", "webpack:///m.map"];
    let files = ["src/a.ts", "./a.js", "../lib/b.min.js", "/root/c.js", "webpack:///./src/x.js", "http://h.example/js/v1/z.js?q#f", "~/q.js"];
    for k in 0..if thorough() { 8000 } else { 800 } {
        let mut arts: Vec<Art> = vec![];
        let place = |r: &mut rng::Rng, arts: &mut Vec<Art>, path: &str, mk: &mut dyn FnMut(&mut rng::Rng) -> (Vec<(&'static str, String)>, What)| {
            let c = candidates(path); let mut n = 0;
            for i in 0..c.len() { if r.below(c.len() as usize) < 2 && n < 3 && !arts.iter().any(|a| a.at == c[i]) { let (headers, what) = mk(r); arts.push(Art { at: c[i].clone(), headers, what }); n += 1; } } };
        let mut frames = vec![]; let mut mods: Vec<(String, String)> = vec![]; let mut targets: Vec<(String, String)> = vec![];
        for _ in 0..1 + r.below(3) {
            let base = *r.pick(&bases); if frames.contains(&base) { continue; } frames.push(base);
            if r.below(3) == 0 { mods.push((base.into(), r.pick(&ids).to_string())); }
            let tok = |r: &mut rng::Rng| Token { at: (0, 0), name: None, scope: Sc::U, file: if r.below(6) > 0 { Some(r.pick(&files).to_string()) } else { None }, text: None, line: 0, col: 0 }; let tok = |r: &mut rng::Rng| { let mut t = tok(r); if t.file.is_some() && r.below(4) == 0 { t.text = Some("inline".into()); } t };
            let mut made: Vec<String> = vec![];
            place(&mut r, &mut arts, base, &mut |r| {
                let mut reff = |r: &mut rng::Rng| if r.below(5) == 0 { let t = tok(r); made.push(format!("={}", t.file.clone().unwrap_or_default())); format!("data:application/json;base64,{}", base64(map(&[t]).as_bytes())) } else { let x = r.pick(&refs).to_string(); made.push(x.clone()); x };
                let mut h = vec![]; if r.below(4) == 0 { h.push(("Sourcemap", reff(r))); } if r.below(4) == 0 { h.push(("X-SourceMap", reff(r))); }
                let what = match r.below(9) { 0 => What::Gone, _ => What::Code { map: (r.below(3) > 0).then(|| reff(r)), own: (r.below(4) == 0).then(|| r.pick(&ids).to_string()) } }; (h, what) });
            for m in made {
                let (at, map_at) = match m.strip_prefix('=') { Some(f) => (vec![join(base, f)], None), None => (files.iter().map(|f| join(&join(base, &m), f)).collect(), Some(join(base, &m))) };
                if let Some(u) = map_at { place(&mut r, &mut arts, &u, &mut |r| (vec![], match r.below(8) { 0 => What::Broken, 1 => What::Gone, _ => What::Map(vec![tok(r)]) })); targets.push((base.into(), u)); }
                for a in at { if r.below(2) == 0 && arts.len() < 24 { place(&mut r, &mut arts, &a, &mut |_| (vec![], What::Text)); } }
            }
        }
        let (release, dist) = (if r.below(5) > 0 { Some("1.0 +&x") } else { None }, if r.below(2) == 0 { Some("d/1") } else { None });
        for i in (1..arts.len()).rev() { arts.swap(i, r.below(i + 1)); }
        let mut world = World::default(); let mut late = vec![];
        for (i, a) in arts.iter().enumerate() { let h: Vec<(&str, &str)> = a.headers.iter().map(|(k, v)| (*k, v.as_str())).collect(); let (v, u) = artifact(i, &a.at, &h); let mut how = |r: &mut rng::Rng, mut v: serde_json::Value| { if r.below(2) == 0 { v["resolved_with"] = (*r.pick(&["release", "release-old", "index", "debug-id"])).into(); } v };
            world.found.push(how(&mut r, v)); if !matches!(a.what, What::Gone) { world.files.insert(u, a.body(i).into_bytes()); }
            // the first of several files for one address is the one
            if r.below(4) == 0 { let (v, u) = artifact(1000 + i, &a.at, if r.below(2) == 0 { &[("sourcemap", "decoy.map")] } else { &[] }); late.push(how(&mut r, v)); world.files.insert(u, format!("decoy {i}").into_bytes()); } }
        for v in late { let after = world.found.iter().position(|o| o["abs_path"] == v["abs_path"]).unwrap() + 1; let at = after + r.below(world.found.len() - after + 1); world.found.insert(at, v); }
        let txt = format!("artifacts {arts:?}, frames {frames:?}, debug ids {mods:?}, release {release:?} dist {dist:?}");
        rep.case((k, &txt));
        let given = vec![frames.iter().map(|f| frame(f, 1, Some(1), Some("f"))).collect::<Vec<_>>()];
        let (got, log) = match lab.run(world, given, &mods, release, dist, false, true) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{txt}: {e}")); continue; } };
        // what should have come of it
        let mut m = Model { arts: &arts, known: false, release, asked: Default::default() }; let mut sources: BTreeMap<String, Option<usize>> = Default::default();
        let mut want = vec![];
        for f in &frames {
            let id = mods.iter().find(|m| m.0 == *f).map(|m| m.1.as_str());
            let code = m.get(Some(f), id);
            let mut out = (None::<String>, f.to_string(), None::<String>, "");
            // an artifact that is known but has no contents is an empty file when it has headers
            let body = code.and_then(|i| match &arts[i].what { What::Gone if arts[i].headers.is_empty() => None, w => Some((i, w)) });
            let Some((i, what)) = body else {
                // without a file there may still be a source map by its debug id
                if let Some(id) = id { m.get(None, Some(id)); }
                out.3 = "missing"; want.push(out); continue; };
            let text = if matches!(what, What::Gone) { String::new() } else { arts[i].body(i) };
            let first = text.lines().next().map(String::from); out.0 = first.clone(); out.2 = first;
            let header = |n: &str| arts[i].headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.clone());
            let (own_map, own) = match what { What::Code { map, own } => (map.as_ref().map(|m| m.split(['?', '#']).next().unwrap().to_string()), own.clone()), _ => Default::default() };
            let reff = header("sourcemap").or(header("x-sourcemap")).or(own_map);
            let did = id.map(String::from).or(own);
            let (mut base, mut toks) = (f.to_string(), None);
            match reff { Some(x) if x.starts_with("data:") => { let b: String = x.rsplit(',').next().unwrap().into(); toks = Some(unbase(&String::from_utf8(unb64(&b)).unwrap())); }
                Some(x) => { let u = join(f, &x); base = u.clone();
                    match m.get(Some(&u), did.as_deref()) { Some(j) => match &arts[j].what { What::Map(t) => toks = Some(t.clone()), What::Gone => out.3 = "missing", _ => out.3 = "broken map" }, None => out.3 = "missing" } }
                None => { if let Some(d) = did { m.get(None, Some(&d)); out.3 = "missing"; } else { want.push(out); continue; } } }
            let Some(toks) = toks else { want.push(out); continue };
            let t = &toks[0];
            if let Some(n) = &t.file { out.1 = join(&base, n); }
            match (&t.file, &t.text) { (Some(_), Some(t)) => out.2 = Some(t.clone()),
                (Some(n), None) => { let a = join(&base, n); let s = match sources.get(&a) { Some(s) => *s, None => { let s = m.get(Some(&a), None); sources.insert(a, s); s } };
                    match s { Some(j) if !matches!(arts[j].what, What::Gone) => out.2 = arts[j].body(j).lines().next().map(String::from), _ => { out.2 = None; out.3 = "no source text"; } } }
                (None, _) => out.2 = None }
            want.push(out);
        }
        // a frame that was not mapped is the raw one
        let kind = |p: &str| { let mut v: Vec<&str> = got.errors.iter().filter(|e| e.abs_path == p).map(|e| match &e.kind { JsModuleErrorKind::MissingSource => "missing", JsModuleErrorKind::MissingSourcemap => "missing", JsModuleErrorKind::ScrapingDisabled => "missing", JsModuleErrorKind::MalformedSourcemap { .. } => "broken map", JsModuleErrorKind::MissingSourceContent { .. } => "no source text", _ => "other" }).collect(); v.dedup(); v.join(",") };
        for (j, (f, w)) in frames.iter().zip(&want).enumerate() {
            let (raw, fr) = (&got.raw_stacktraces[0].frames[j], &got.stacktraces[0].frames[j]);
            let g = (raw.context_line.clone().filter(|s| !s.is_empty()), fr.abs_path.clone(), fr.context_line.clone().filter(|s| !s.is_empty()), kind(f));
            let w = (w.0.clone(), w.1.clone(), w.2.clone(), w.3.to_string());
            if g != w { rep.fail("files", format!("{txt}: for {f:?} minified line, address, source line, problem are {g:?} instead of {w:?}")); }
        }
        let mut asked: BTreeSet<(BTreeSet<String>, BTreeSet<String>)> = Default::default();
        for u in log.iter().filter(|u| u.starts_with(API)) {
            let u = reqwest::Url::parse(u).unwrap(); let get = |n: &str| u.query_pairs().filter(|(k, _)| k == n).map(|(_, v)| v.to_string()).collect::<Vec<_>>();
            let (rl, di): (Vec<String>, Vec<String>) = (release.map(String::from).into_iter().collect(), dist.map(String::from).into_iter().collect());
            if get("release") != rl || get("dist") != di { rep.fail("release", format!("{txt}: the query {u} is not about the release and distribution of the request")); }
            asked.insert((get("url").into_iter().collect(), get("debug_id").into_iter().collect()));
        }
        if asked != m.asked { rep.fail("queries", format!("{txt}: Sentry was asked about {asked:?} instead of {:?}", m.asked)); }
        if k % 100 == 3 { rep.sample(format!("{txt} -> {want:?} asking {:?}", m.asked)); }
    }
    rep.done();
}
const B: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn base64(b: &[u8]) -> String { let mut o = String::new(); for c in b.chunks(3) { let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; for k in 0..4 { o.push(if k <= c.len() { B[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' }); } } o }
fn unb64(s: &str) -> Vec<u8> { let (mut acc, mut n, mut o) = (0u32, 0, vec![]); for c in s.bytes().filter(|c| *c != b'=') { acc = acc << 6 | B.iter().position(|b| *b == c).unwrap() as u32; n += 6; if n >= 8 { n -= 8; o.push((acc >> n) as u8); acc &= (1 << n) - 1; } } o }
