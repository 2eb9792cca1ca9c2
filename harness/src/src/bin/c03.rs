use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
fn pat_ok(p: &str, f: &Option<String>) -> bool {
    let Some(f) = f else { return false };
    let o = glob::MatchOptions { case_sensitive: false, require_literal_separator: false, require_literal_leading_dot: false };
    glob::Pattern::new(p).unwrap().matches_with(&f.replace('\\', "/"), o)
}
fn main() {
    let mut rep = Rep::new("random filters (file type lists, path patterns, checksum requirement) against random identities and every file type; distinct by (filter, identity, type)");
    let mut r = Rng::new(seed());
    let pats = ["*", "*.pdb", "C:/*", "c:/windows/**", "*/ntdll.dll", "*FOO*", "?.dll", ".*", "foo", "**/lib/*", "*\u{e9}*", "[a-c]*", "/usr/lib/*", "*/.hidden/*"];
    let files = ["", "a.dll", "A.DLL", "C:\\Windows\\System32\\ntdll.dll", "c:/windows/x.pdb", "/usr/lib/libfoo.so", "/usr/LIB/x", ".hid", "x/.hidden/y", "foo", "FOO", "a/b\\c/foo.pdb", "caf\u{e9}", "CAF\u{c9}", "\\\\srv\\lib\\z", "d"];
    let n = if thorough() { 300000 } else { 12000 };
    for _ in 0..n {
        let k = r.below(4);
        let ps: Vec<String> = (0..k).map(|_| pats[r.below(pats.len())].to_string()).collect();
        let nt = r.below(4);
        let fts: Vec<FileType> = (0..nt).map(|_| FTYPES[r.below(FTYPES.len())]).collect();
        let rc = r.below(3) == 0;
        let f = SourceFilters { filetypes: fts.clone(), path_patterns: ps.iter().map(|p| Glob(glob::Pattern::new(p).unwrap())).collect(), requires_checksum: rc };
        let mut i = rand_id(&mut r);
        i.code_file = if r.below(3) == 0 { None } else { Some(files[r.below(files.len())].to_string()) };
        i.debug_file = if r.below(3) == 0 { None } else { Some(files[r.below(files.len())].to_string()) };
        i.debug_checksum = [None, None, Some("SHA256:ab".to_string()), Some(String::new())][r.below(4)].clone();
        let po = ps.is_empty() || ps.iter().any(|p| pat_ok(p, &i.code_file) || pat_ok(p, &i.debug_file));
        match guarded(|| matches_path_patterns(&i, &f.path_patterns)) {
            Ok(g) => if g != po { rep.fail("patterns", format!("patterns {ps:?} code_file {:?} debug_file {:?}: got {g}, expected {po}", i.code_file, i.debug_file)); },
            Err(e) => rep.fail("panic", format!("patterns {ps:?} code_file {:?} debug_file {:?}: panic {e}", i.code_file, i.debug_file)),
        }
        for t in FTYPES {
            let want = (!rc || i.debug_checksum.is_some()) && (fts.is_empty() || fts.contains(&t)) && po;
            rep.case((format!("{fts:?}{ps:?}{rc}{t:?}{:?}{:?}{:?}", i.code_file, i.debug_file, i.debug_checksum), want));
            match guarded(|| f.is_allowed(&i, t)) {
                Ok(g) => if g != want { rep.fail("allowed", format!("filter types {fts:?} patterns {ps:?} requires_checksum {rc}, id {i:?}, type {t:?}: got {g}, expected {want}")); },
                Err(e) => rep.fail("panic", format!("filter {f:?} id {i:?} {t:?}: panic {e}")),
            }
            if want && k > 0 && nt > 0 { rep.sample(format!("types {fts:?} patterns {ps:?} code_file {:?} -> allowed {t:?}", i.code_file)); }
        }
    }
    rep.done();
}
