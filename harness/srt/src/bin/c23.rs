//! what the built sorter stores, leaves alone and reports
use std::collections::{BTreeMap, BTreeSet};
use vp_src::{rng::Rng, *};
use vp_srt::*;
fn total(out: &str, pre: &str) -> Option<usize> { out.lines().find_map(|l| { let l: String = strip(l); l.strip_prefix(pre).and_then(|x| x.trim().split(' ').next().and_then(|n| n.parse().ok())) }) }
fn strip(l: &str) -> String { let mut o = String::new(); let mut it = l.chars(); while let Some(c) = it.next() { if c == '\u{1b}' { for d in it.by_ref() { if d.is_ascii_alphabetic() { break; } } } else { o.push(c); } } o }
fn is_object(p: &str) -> bool { ["debuginfo", "executable", "sourcebundle"].contains(&p.rsplit('/').next().unwrap()) && !p.contains("/refs/") }
fn main() {
    let mut rep = Rep::new("directory trees of object files, fat files, zip archives, duplicates, junk and files already present in the output, with random options (-z, -I, -b, --multiple-bundles, --with-sources), sorted twice by the built binary; distinct by (options, inputs)");
    let mut r = Rng::new(seed() ^ 23);
    let s = Scratch::new("c23");
    // a companion file with line information, for --with-sources
    std::fs::write(s.0.join("src.c"), "int f(int x){return x+1;}\n").unwrap();
    let sh = |c: &str| std::process::Command::new("sh").arg("-c").arg(c).current_dir(&s.0).output().map(|o| o.status.success()).unwrap_or(false);
    let mut dbg: Vec<Vec<u8>> = vec![];
    for k in 0..4 {
        std::fs::write(s.0.join(format!("src{k}.c")), format!("int f{k}(int x){{return x+{k};}}\n")).unwrap();
        if sh(&format!("gcc -g -shared -fPIC -o l{k}.so $PWD/src{k}.c -Wl,--build-id=0x0a0b0c0d0e{k:02x} && objcopy --only-keep-debug l{k}.so l{k}.debug")) { if let Ok(d) = std::fs::read(s.0.join(format!("l{k}.debug"))) { dbg.push(d); } }
    }
    let n = if thorough() { 400 } else { 70 };
    for it in 0..n {
        let root = s.0.join(format!("r{it}")); let (inp, out) = (root.join("in"), root.join("out"));
        std::fs::create_dir_all(&inp).unwrap();
        let mut files: Vec<(String, Vec<u8>)> = corpus(&mut r, 1 + [2, 6, 14][it % 3]);
        // only objects that have a location: the others are refused (C02)
        files.retain(|(_, d)| objects(d).iter().all(|o| !o.storable() || o.place().is_some()));
        let sources = it % 4 == 1;
        if sources { for d in &dbg { if r.below(3) > 0 { files.push((format!("l{}.debug", files.len()), d.clone())); } } }
        // a fat file holding an object that exists elsewhere as well, duplicates with other contents
        let u = rb16(&mut r);
        let (m1, m2) = (macho(10, Some(u), 0x1000007, 1000 + it as u32), macho(10, Some(rb16(&mut r)), 0x100000c, 7));
        if r.below(2) == 0 { files.push(("dup.macho".into(), m1.clone())); files.push(("dup.fat".into(), fat(&[(0x1000007, macho(10, Some(u), 0x1000007, 2)), (0x100000c, m2.clone())]))); }
        if r.below(3) == 0 { files.push(("same.bin".into(), m2.clone())); }
        // a source bundle for an object of the corpus
        if sources && r.below(2) == 0 { files.push(("given.src".into(), bundle(Some("3249d99d-0c40-4931-8610-f4e4fb0b6936"), Some("0a0b0c0d0e00"), 5))); }
        let junk = r.below(3) == 0;
        // where they lie: plain, nested, in zip archives
        let mut zips: Vec<Vec<(String, Vec<u8>)>> = vec![vec![]; 2];
        let mut all: Vec<(Vec<u8>, bool)> = vec![];
        for (k, (name, d)) in files.iter().enumerate() {
            let place = r.below(4);
            all.push((d.clone(), place == 3));
            match place { 0 | 1 => std::fs::write(inp.join(name), d).unwrap(), 2 => { let p = inp.join(format!("sub{}", k % 3)); std::fs::create_dir_all(&p).unwrap(); std::fs::write(p.join(name), d).unwrap(); }, _ => zips[k % 2].push((format!("a/{name}"), d.clone())) }
        }
        for (k, z) in zips.iter().enumerate() { if !z.is_empty() {
            let mut z = z.clone(); if junk { for k in 0..3 { let at = r.below(z.len() + 1); z.insert(at, (["readme.txt", "a/e", "zz/"][k].into(), if k == 1 { vec![] } else { b"nothing".to_vec() })); } z.retain(|e| e.0 != "zz/"); }
            // source bundles are zip archives themselves: the sorter opens either as an archive of files
            std::fs::write(inp.join(format!("z{k}.zip")), zip_of(&z)).unwrap();
        } }
        if junk { std::fs::write(inp.join("note.txt"), b"text").unwrap(); std::fs::write(inp.join("empty"), b"").unwrap(); }
        // expectation
        let mut want: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
        for (d, _) in &all { for o in objects(d) { if o.storable() { if let Some(p) = o.place() { want.entry(p.replace("//", "/")).or_default().insert(o.data); } } } }
        let z = [0, 0, 1, 2, 3][r.below(5)];
        let mut args: Vec<String> = vec!["-o".into(), "out".into()];
        for _ in 0..z { args.push("-z".into()); }
        if r.below(2) == 0 { args.push("-I".into()); }
        let mut bundle_id = None;
        match r.below(3) { 0 => { args.push("-b".into()); args.push("rel-1".into()); bundle_id = Some("rel-1".to_string()); } 1 => { args.push("--multiple-bundles".into()); bundle_id = Some("in".to_string()); } _ => {} }
        if sources { args.push("--with-sources".into()); }
        args.push("in".into());
        // files that are already there
        let mut before: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for p in want.keys() { if r.below(6) == 0 { let q = out.join(p); std::fs::create_dir_all(q.parent().unwrap()).unwrap(); std::fs::write(&q, b"already here").unwrap(); before.insert(p.clone(), b"already here".to_vec()); } }
        let id = format!("run {it} {args:?} on {} files{}", files.len(), if before.is_empty() { "" } else { ", some already present" });
        rep.case((format!("{args:?}"), all.iter().map(|x| x.0.len()).collect::<Vec<_>>()));
        rep.sample(format!("{id} -> {} objects", want.len()));
        let av: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let mut prev = before.clone();
        for round in 0..2 {
            let x = sort(&root, &av);
            if !x.ok { rep.fail("run", format!("{id}: round {round} failed: {}", x.err)); break; }
            let now: BTreeMap<String, Vec<u8>> = tree(&out);
            let objs: BTreeMap<&String, &Vec<u8>> = now.iter().filter(|(p, _)| is_object(p)).collect();
            // nothing that was there changed
            for (p, d) in &prev { if is_object(p) && objs.get(p) != Some(&d) { rep.fail("overwritten", format!("{id}: round {round}: {p} was there and changed")); } }
            let made: Vec<&&String> = objs.keys().filter(|p| !prev.contains_key(**p)).collect();
            if round == 1 && !made.is_empty() { rep.fail("rerun", format!("{id}: the second run added {made:?}")); }
            let mut bundles_made = 0;
            for p in &made {
                let raw = objs[**p]; let d = if z > 0 { zstd::decode_all(&raw[..]).unwrap_or_default() } else { raw.clone() };
                match want.get(**p) {
                    Some(c) => if !c.contains(&d) { rep.fail("bytes", format!("{id}: {p} does not hold the bytes of an object with that identity")); },
                    None => {
                        // a source bundle made from a debug companion of the same identifier
                        let comp = p.replace("sourcebundle", "debuginfo");
                        if sources && p.ends_with("/sourcebundle") && want.contains_key(&comp) && objects(&d).iter().any(|o| o.place().as_deref() == Some(p.as_str())) { bundles_made += 1; }
                        else { rep.fail("stray", format!("{id}: {p} is not the location of an object of the input")); }
                    }
                }
            }
            for p in want.keys() { if !objs.contains_key(p) { rep.fail("missing", format!("{id}: round {round}: no {p}")); } }
            // a companion with line information found on disk gets its bundle
            if sources && round == 0 { for (d, zipped) in &all { if dbg.contains(d) && !zipped { let p = objects(d)[0].place().unwrap().replace("debuginfo", "sourcebundle"); if !objs.contains_key(&p) && !before.contains_key(&objects(d)[0].place().unwrap()) && all.iter().filter(|x| x.0 == *d).count() == 1 { rep.fail("no-bundle", format!("{id}: no source bundle {p}")); } } } }
            let t = total(&x.out, "Sorted ");
            if t != Some(made.len()) { rep.fail("total", format!("{id}: round {round}: reports {t:?} sorted files, {} were stored: {made:?}", made.len())); }
            if sources { let t = total(&x.out, "Created "); if t != Some(bundles_made) { rep.fail("bundles", format!("{id}: round {round}: reports {t:?} source bundles, {bundles_made} were created")); } }
            if round == 0 { if let Some(b) = &bundle_id {
                for p in made.iter() { let dir = p.rsplit_once('/').unwrap().0; if !now.contains_key(&format!("{dir}/refs/{b}")) { rep.fail("refs", format!("{id}: no reference of {p} to bundle {b}")); } }
                match now.get(&format!("bundles/{b}")).and_then(|d| serde_json::from_slice::<serde_json::Value>(d).ok()) {
                    None => rep.fail("meta", format!("{id}: no bundle metadata")),
                    Some(v) => {
                        let mut ids: Vec<String> = v["debug_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(); ids.sort();
                        let mut exp: Vec<String> = made.iter().map(|p| p.rsplit_once('/').unwrap().0.replace('/', "")).collect(); exp.sort();
                        if ids != exp || v["name"] != b.as_str() { rep.fail("meta", format!("{id}: bundle metadata lists {ids:?}, stored were {exp:?}")); }
                    }
                }
            } }
            prev = now;
        }
        let _ = std::fs::remove_dir_all(&root);
    }
    rep.done();
}
