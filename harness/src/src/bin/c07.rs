//! parse_symstore_path against a reference parser, and the round trip with the symbol-store layout
use symbolic::common::{CodeId, DebugId};
use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
type Found = (FileType, ObjectType, Option<String>, Option<DebugId>, Option<String>, Option<String>);
fn resolves(p: &str) -> Option<Found> {
    let v: Vec<&str> = p.splitn(3, '/').collect();
    if v.len() != 3 || v[0].to_lowercase() != v[2].to_lowercase() { return None; }
    let (f, fl, sl) = (v[0].to_string(), v[0].to_lowercase(), v[1].to_lowercase());
    let code = |t, o, n: usize| Some((t, o, Some(CodeId::new(v[1][n..].to_string()).as_str().to_string()), None, Some(f.clone()), None));
    if fl.ends_with(".debug") && sl.starts_with("elf-buildid-sym-") { code(FileType::ElfDebug, ObjectType::Elf, 16) }
    else if sl.starts_with("elf-buildid-") { code(FileType::ElfCode, ObjectType::Elf, 12) }
    else if fl.ends_with(".dwarf") && sl.starts_with("mach-uuid-sym-") { code(FileType::MachDebug, ObjectType::Macho, 14) }
    else if sl.starts_with("mach-uuid-") { code(FileType::MachCode, ObjectType::Macho, 10) }
    else if fl.ends_with(".pdb") { Some((FileType::Pdb, ObjectType::Pe, None, Some(DebugId::from_breakpad(v[1]).ok()?), None, Some(f))) }
    else { code(FileType::Pe, ObjectType::Pe, 0) }
}
fn found(r: (&'static [FileType], ObjectId)) -> Option<Found> {
    let (t, i) = r;
    if t.len() != 1 || i.debug_checksum.is_some() { return None; }
    Some((t[0], i.object_type, i.code_id.map(|c| c.as_str().to_string()), i.debug_id, i.code_file, i.debug_file))
}
fn main() {
    let mut rep = Rep::new("request paths built from name, prefix, identifier and separator pieces in mixed case and non-ASCII spellings, against a reference parser; paths generated by the symbol-store layout for generated identities, which have to resolve back; distinct by (path, result)");
    let mut r = Rng::new(seed());
    let names = ["foo.pdb", "FOO.PDB", "Foo.Pdb", "foo.exe", "_.debug", "_.DEBUG", "x.debug", "_.dwarf", "libFoo.Dwarf", "\u{c9}t\u{e9}.pdb", "\u{e9}t\u{e9}.pdb", "\u{c9}T\u{c9}.PDB", "a", "", ".pdb", ".debug", "foo/bar", "stra\u{df}e", "STRASSE", "\u{130}x", "i\u{307}x", "\u{212a}.pdb", "k.pdb", "pdb", "foo.pdb.gz", "foo.dwarf.debug"];
    let pre = ["", "elf-buildid-", "elf-buildid-sym-", "mach-uuid-", "mach-uuid-sym-", "ELF-BUILDID-", "Elf-BuildId-Sym-", "MACH-UUID-", "mach-uuid-SYM-", "elf-buildid", "mach_uuid-", "elf-buildid-sym", "mach-uuid-sym", "mac\u{212a}-uuid-", "\u{130}elf-buildid-", "e\u{301}lf-"];
    let sigs = ["", "180a373d6afbabf0eb1f09be1bc45bd796a71085", "67E9247C814E392BA027DBDE6748FCBF", "542D574Ec2000", "497b72f6390a44fc878e5a2d63b6cc4b1", "497b72f6390a44fc878e5a2d63b6cc4bFFFFFFFF", "497b72f6390a44fc878e5a2d63b6cc4b", "497b72f6-390a-44fc-878e-5a2d63b6cc4b-1", "sym-abcdef", "zz", "\u{e9}\u{212a}", "497b72f6390a44fc878e5a2d63b6cc4bFFFFFFFFF", "35707659e", "notahexid"];
    let n = if thorough() { 400000 } else { 20000 };
    let mut paths: Vec<String> = vec!["".into(), "/".into(), "//".into(), "///".into(), "a/b".into(), "a/b/a/b".into(), "a//a".into(), "foo.pdb/x".into()];
    for a in names { for p in pre { for s in sigs { paths.push(format!("{a}/{p}{s}/{a}")); } } }
    for _ in 0..n {
        let a = names[r.below(names.len())];
        let b = match r.below(5) { 0 => names[r.below(names.len())].to_string(), 1 => a.to_uppercase(), 2 => a.to_lowercase(), _ => a.to_string() };
        let s = format!("{}{}", pre[r.below(pre.len())], sigs[r.below(sigs.len())]);
        let s = match r.below(4) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), _ => s };
        paths.push(match r.below(8) { 0 => format!("{a}/{s}"), 1 => format!("{a}/{s}/{b}/{b}"), 2 => format!("/{a}/{s}/{b}"), 3 => format!("{a}\\{s}/{b}"), _ => format!("{a}/{s}/{b}") });
    }
    for p in &paths {
        let want = resolves(p);
        rep.case((p, want.is_some()));
        match guarded(|| parse_symstore_path(p)) {
            Err(e) => rep.fail("panic", format!("path {p:?}: panic {e}")),
            Ok(g) => {
                let gs = format!("{g:?}");
                let gf = g.map(found);
                if gf != want.clone().map(Some) { rep.fail("resolve", format!("path {p:?}: got {gs}, expected {want:?}")); }
                else if want.is_some() { rep.sample(format!("{p:?} -> {want:?}")); }
            }
        }
    }
    // what the layout generates resolves back to the identity it was generated for
    let l = DirectoryLayout { ty: DirectoryLayoutType::Symstore, casing: FilenameCasing::Default };
    let back = |rep: &mut Rep, p: &str, want: Found| {
        match guarded(|| parse_symstore_path(p)) {
            Ok(Some(g)) if found(g.clone()) == Some(want.clone()) => {}
            Ok(g) => rep.fail("roundtrip", format!("path {p:?} generated for {want:?} resolves to {g:?}")),
            Err(e) => rep.fail("panic", format!("path {p:?}: panic {e}")),
        }
    };
    for i in identities(seed(), n / 10) {
        for t in [FileType::Pdb, FileType::Pe, FileType::ElfCode, FileType::ElfDebug, FileType::MachCode, FileType::MachDebug] {
            let Ok(ps) = guarded(|| get_directory_paths(l, t, &i)) else { rep.fail("panic", format!("{t:?} {i:?}")); continue };
            let Some(p) = ps.last() else { continue };
            rep.case((p, format!("{t:?}")));
            let (cf, df) = (ok_name(&i.code_file), ok_name(&i.debug_file));
            let code = i.code_id.as_ref().map(|c| c.as_str().to_string());
            let mach = match &i.code_id { Some(c) => c.as_str().parse::<symbolic::common::Uuid>().ok(), None => i.debug_id.map(|d| d.uuid()) }.map(|u| u.as_simple().to_string());
            match t {
                FileType::Pdb => if let (Some(f), Some(d)) = (&df, i.debug_id) {
                    if i.object_type != ObjectType::PeDotnet && f.to_lowercase().ends_with(".pdb") && !d.is_pdb20() { back(&mut rep, p, (t, ObjectType::Pe, None, Some(d), None, df.clone())); } }
                FileType::Pe => if let (Some(f), Some(c)) = (&cf, &code) { if !f.to_lowercase().ends_with(".pdb") && c.len() >= 8 { back(&mut rep, p, (t, ObjectType::Pe, code.clone(), None, cf.clone(), None)); } }
                FileType::ElfCode => back(&mut rep, p, (t, ObjectType::Elf, code, None, cf, None)),
                FileType::ElfDebug => back(&mut rep, p, (t, ObjectType::Elf, code, None, Some("_.debug".into()), None)),
                FileType::MachCode => back(&mut rep, p, (t, ObjectType::Macho, mach, None, cf, None)),
                _ => back(&mut rep, p, (t, ObjectType::Macho, mach, None, Some("_.dwarf".into()), None)),
            }
        }
    }
    rep.done();
}
