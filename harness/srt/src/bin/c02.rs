//! every file the sorter stores lies where a unified lookup with the object's identity goes
use symbolic::debuginfo::FileFormat;
use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
use vp_srt::*;
fn main() {
    let mut rep = Rep::new("ELF, Mach-O (fat and thin), wasm, PE, PDB, portable PDB and source bundle files with random identifiers of 1 to 32 bytes, sorted by the built binary; every stored file is compared with the location a unified source is asked for; distinct by (format, kind, identifier)");
    let mut r = Rng::new(seed());
    let s = Scratch::new("c02");
    let n = if thorough() { 2500 } else { 260 };
    let l = DirectoryLayout { ty: DirectoryLayoutType::Unified, casing: FilenameCasing::Default };
    let files = corpus(&mut r, n);
    let mut batches: Vec<Vec<(String, Vec<u8>)>> = files.chunks(60).map(|c| c.to_vec()).collect();
    batches.push(vec![("short.so".into(), elf(0, Some(&[7]), 1)), ("empty.so".into(), elf(1, Some(&[]), 2))]);
    for (b, batch) in batches.iter().enumerate() {
        let (inp, out) = (s.0.join(format!("in{b}")), s.0.join(format!("out{b}")));
        std::fs::create_dir_all(&inp).unwrap();
        let mut want: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for (name, d) in batch {
            std::fs::write(inp.join(name), d).unwrap();
            for o in objects(d) {
                if !o.storable() { continue; }
                let Some(stored) = o.place() else { continue };
                // the locations a lookup asks for
                let asks: Vec<(FileType, ObjectType)> = match asked(o.format, o.kind) {
                    Some(x) => vec![x],
                    None if o.format == FileFormat::SourceBundle => [ObjectType::Elf, ObjectType::Macho, ObjectType::Wasm, ObjectType::Pe, ObjectType::PeDotnet].iter().filter(|m| matches!(m, ObjectType::Elf | ObjectType::Macho | ObjectType::Wasm) == o.code.is_some()).map(|m| (FileType::SourceBundle, *m)).collect(),
                    None => continue,
                };
                for (t, m) in asks {
                    let i = o.identity(m);
                    let key = match (m, o.code.is_some()) { (ObjectType::Elf, false) => "elf-no-build-id", _ => "lookup" };
                    let got = get_directory_paths(l, t, &i);
                    let reference = layout(l, t, &i);
                    rep.case((format!("{:?}{:?}", o.format, o.kind), stored.clone()));
                    if got.last() != Some(&stored) || reference.last() != Some(&stored) { rep.fail(key, format!("{:?} {:?} code id {:?} debug id {} of {name} is sorted to {stored}, looked up at {got:?}", o.format, o.kind, o.code, o.debug)); }
                    else { rep.sample(format!("{:?} {:?} {stored}", o.format, o.kind)); }
                }
                want.entry(stored.replace("//", "/")).or_default().push(name.clone());
            }
        }
        // run: every file on its own terms, ignoring those that are refused
        let x = sort(&s.0, &["-o", out.to_str().unwrap(), "-I", "-q", inp.to_str().unwrap()]);
        if !x.ok { rep.fail("run", format!("batch {b}: sorter failed: {}", x.err)); }
        if x.err.contains("panicked") { rep.fail("panic", format!("batch {b}: {}", x.err)); }
        let got = tree(&out);
        for p in got.keys().filter(|p| !p.ends_with(".meta") && !p.contains("/refs/")) { if !want.contains_key(p) { rep.fail("place", format!("stored at {p}, which no object in the input has for its location")); } }
        for (w, names) in &want { if !got.contains_key(w) { rep.fail("place", format!("{names:?} not stored at {w}")); } }
    }
    // source bundles of PE modules that carry a code id, of Mach-O modules that carry none
    for (m, code) in [(ObjectType::Pe, Some("5ab380779000")), (ObjectType::Macho, None), (ObjectType::Elf, None)] {
        let d = bundle(Some("3249d99d-0c40-4931-8610-f4e4fb0b6936-1"), code, 1);
        let o = &objects(&d)[0];
        let (stored, got) = (o.place(), get_directory_paths(l, FileType::SourceBundle, &o.identity(m)));
        rep.case(format!("{m:?}{code:?}"));
        if stored.as_ref() != got.last() { rep.fail("bundle-other-id", format!("source bundle of a {m:?} module, code id {code:?}: sorted to {stored:?}, looked up at {got:?}")); }
    }
    rep.done();
}
