//! Names of JavaScript frames: each piece for texts made of what means something to it, and whole requests
use symbolicator_js::utils;
use vp_jsn::*;
use vp_svc::*;
fn main() {
    let mut rep = Rep::new("names, paths and addresses put together from the pieces the rules know (schemes, folders, versions, hashes, webpack prefixes, dots, tildes, queries, non-ASCII text); requests of up to three traces of up to seven frames over up to three minified files with up to ten tokens: useless, repeated and missing names, all kinds of scopes, files with and without text, frames beside every token or at line zero");
    let mut r = rng::Rng::new(seed() + 27);
    for k in 0..if thorough() { 3_000_000 } else { 300_000 } {
        let t = text(&mut r);
        rep.case(&t);
        for (what, want, got) in [("module", module(&t), guarded(|| utils::generate_module(&t))), ("file name", webpack(&t), guarded(|| utils::fixup_webpack_filename(&t)))] {
            if got.as_ref() != Ok(&want) { rep.fail(what, format!("{what} of {t:?} is {got:?} instead of {want:?}")); } }
        let f: String = (0..r.below(8)).map(|_| *r.pick(&["foo", "bar", ".", ".", ".foo.", "foo.foo", "\u{e9}", "{foo#2}"])).collect();
        let (want, got) = (fold(&f), guarded(|| utils::fold_function_name(&f)));
        if got.as_ref() != Ok(&want) { rep.fail("folding", format!("{f:?} is folded to {got:?} instead of {want:?}")); }
        let names = [Some("<anonymous>"), Some("__webpack_require__"), Some("__webpack_modules__"), Some("f"), Some("<unknown>"), Some(""), None, Some("<Anonymous>")];
        let (a, b, c) = (*r.pick(&names), r.pick(&names).unwrap_or("x"), *r.pick(&names));
        let (want, got) = (shown(a, b, c), utils::get_function_for_token(a, b, c).to_string());
        if got != want { rep.fail("function", format!("with raw name {a:?}, token {b:?}, caller {c:?}: {got:?} instead of {want:?}")); }
        if k % 20000 == 3 { rep.sample(format!("module of {t:?} is {:?}", module(&t))); }
    }
    let mut lab = Lab::new("c27");
    let names = ["<anonymous>", "__webpack_require__", "__webpack_modules__", "f", "f.f.f", "a.a.a.b", "$async$main", "", "g", "<unknown>"];
    let files = ["src/a.ts", "./a.js", "../lib/b.min.js", "/root/c.js", "webpack:///./src/x.js", "webpack://_N_E/./y/y.js", "webpack:///a/~/react/index.js", "http://h.example/js/v1/z.js", "app:///m.js", "~/q.js", "d41d8cd98f00b204e9800998ecf8427e/k/l.js", "n-deadbeef.js", "", "webpack-internal:///./w.js"];
    let bases = ["https://x.example/js/app.js", "http://x.example/app.min.js?v=1#f", "app:///main.jsbundle", "/local/static/file.js", "webpack:///boot.js"];
    for k in 0..if thorough() { 4000 } else { 400 } {
        let n = 1 + r.below(3); let mut world = World::default(); let mut mods: Vec<(String, Option<Vec<Token>>, bool)> = vec![];
        for i in 0..n {
            let base = *r.pick(&bases); if mods.iter().any(|m| m.0 == base) { continue; }
            let mut toks: Vec<Token> = vec![];
            for j in 0..r.below(11) as u32 { let mut n = |r: &mut rng::Rng| r.pick(&names).to_string();
                toks.push(Token { at: (j / 4, j % 4), name: if r.below(3) > 0 { Some(n(&mut r)) } else { None }, scope: match r.below(4) { 0 => Sc::A, 1 => Sc::U, _ => Sc::N(n(&mut r)) }, file: if r.below(5) > 0 { Some(r.pick(&files).to_string()) } else { None }, text: if r.below(3) == 0 { Some("one line".into()) } else { None },
                    line: *r.pick(&[0, 1, 7, u32::MAX, u32::MAX - 1]), col: *r.pick(&[0, 3, u32::MAX]) }); }
            let kind = r.below(8);
            let (v, u) = artifact(2 * i, &candidates(base)[0], if kind < 6 { &[("Sourcemap", "the.map")] } else { &[] });
            if kind == 7 { mods.push((base.into(), None, false)); continue; }
            world.found.push(v); world.files.insert(u, b"var minified = 1;".to_vec());
            let (v, u) = artifact(2 * i + 1, &candidates(&join(base, "the.map"))[0], &[]); world.found.push(v); world.files.insert(u, map(&toks).into_bytes());
            mods.push((base.into(), (kind < 6).then_some(toks), true));
        }
        let mut traces = vec![];
        for _ in 0..1 + r.below(3) { let mut t = vec![]; for _ in 0..r.below(8) { let m = r.pick(&mods); let mut f = frame(&m.0, if r.below(12) == 0 { 0 } else { 1 + r.below(3) as u32 }, match r.below(8) { 0 => None, 1 => Some(0), _ => Some(1 + r.below(4) as u32) }, if r.below(3) == 0 { None } else { Some(*r.pick(&names)) });
            if r.below(6) == 0 { f.abs_path = format!("async {}", f.abs_path); } if r.below(4) == 0 { f.module = Some("given".into()); } if r.below(4) == 0 { f.filename = Some("given.js".into()); } t.push(f); } traces.push(t); }
        let context = r.below(2) == 0;
        rep.case((k, format!("{traces:?} {mods:?}")));
        let txt = format!("files {mods:?}, frames {traces:?}");
        let (got, _) = match lab.run(world, traces.clone(), &[], Some("1.0"), None, false, context) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("{txt}: {e}")); continue; } };
        let got: Vec<Vec<_>> = got.stacktraces.iter().map(|t| t.frames.iter().map(|f| (f.abs_path.clone(), f.function.clone(), f.filename.clone(), f.module.clone(), f.lineno, f.colno, f.data.symbolicated)).collect()).collect();
        let want: Vec<Vec<_>> = traces.iter().map(|t| { let mut caller: Option<String> = None; t.iter().map(|f| {
            let path = f.abs_path.strip_prefix("async ").unwrap_or(&f.abs_path).to_string(); let m = mods.iter().find(|m| m.0 == path).unwrap(); let above = caller.take();
            let raw = (path.clone(), f.function.clone(), f.filename.clone(), f.module.clone(), f.lineno, f.colno, false);
            if f.lineno == 0 || !m.2 { return raw; } let Some(toks) = &m.1 else { return raw };
            let at = (f.lineno - 1, f.colno.unwrap_or(0).saturating_sub(1));
            let Some(t) = toks.iter().find(|t| t.at == at) else { return raw };
            caller = t.name.clone();
            let inner = match &t.scope { Sc::A => "<anonymous>".to_string(), Sc::U => f.function.clone().unwrap_or("<unknown>".into()), Sc::N(n) if n.starts_with("$async$") => t.name.clone().unwrap_or(n.clone()), Sc::N(n) => n.clone() };
            let function = Some(fold(&shown(f.function.as_deref(), &inner, above.as_deref())));
            let (mut abs, mut file, mut md) = (path.clone(), f.filename.clone(), f.module.clone());
            if let Some(n) = &t.file { abs = join(&join(&path, "the.map"), n); let mut n = n.clone(); if n.starts_with("webpack:") { n = webpack(&n); md = Some(module(&n)); }
                if md.is_none() && ["http:", "https:", "webpack:", "app:"].iter().any(|s| abs.starts_with(s)) { md = Some(module(&abs)); } file = Some(n); }
            (abs, function, file, md, t.line.saturating_add(1), Some(t.col.saturating_add(1)), true)
        }).collect() }).collect();
        if got != want { rep.fail("frames", format!("{txt}: {got:?} instead of {want:?}")); }
        if k % 60 == 3 { rep.sample(format!("{txt} -> {want:?}")); }
    }
    rep.done();
}
