use std::sync::Arc;
use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
fn bad(p: &str) -> bool { p.starts_with('/') || p.split('/').any(|c| c == "..") || p.contains('\0') }
fn lexical(base: &str, p: &str) -> bool {
    // p normalised lexically must be below base
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } }
    let b: Vec<&str> = base.split('/').filter(|c| !c.is_empty()).collect();
    v.len() > b.len() && v[..b.len()] == b[..]
}
fn main() {
    let mut rep = Rep::new("hostile code and debug file names in every layout, casing and file type: the validated base name, every location, its filesystem path and its URL; distinct by (layout, casing, type, locations)");
    let fs = Arc::new(FilesystemSourceConfig { id: SourceId::new("s"), path: "/base/dir".into(), files: Default::default() });
    let url = url::Url::parse("https://host.example/base/dir").unwrap();
    let http = HttpSourceConfig { id: SourceId::new("h"), url: url.clone(), headers: Default::default(), files: Default::default(), accept_invalid_certs: false };
    let http = Arc::new(http);
    let mut ids = identities(seed(), if thorough() { 40000 } else { 1500 });
    let mut r = Rng::new(seed() ^ 77);
    let parts = ["..", ".", "", "...", "/", "\\", "a", "\n", "\0", "\u{85}", "\u{7f}", "\x1b", " ", "..\\", "../", "%2e%2e", "\u{2028}", "\u{e9}", ".exe", ".pdb", ".dll", "..a", "a..", "://", "C:", "?", "#"];
    for _ in 0..if thorough() { 60000 } else { 3000 } {
        let mut i = rand_id(&mut r);
        let mut mk = || { let mut s = String::new(); for _ in 0..1 + r.below(5) { s.push_str(parts[r.below(parts.len())]); } if r.below(20) == 0 { s.push_str(&"\u{e9}".repeat(120 + r.below(20))); } s };
        i.code_file = Some(mk()); i.debug_file = Some(mk());
        ids.push(i);
    }
    for i in &ids {
        for (raw, got) in [(&i.code_file, guarded(|| i.validated_code_file_basename().map(str::to_string))), (&i.debug_file, guarded(|| i.validated_debug_file_basename().map(str::to_string)))] {
            match got {
                Ok(g) => {
                    if let Some(b) = &g { if b.is_empty() || b == "." || b == ".." || b.len() > 255 || b.contains('/') || b.chars().any(char::is_control) { rep.fail("name", format!("name {raw:?} gives {b:?}")); } }
                    if g != ok_name(raw) { rep.fail("name", format!("name {raw:?}: got {g:?}, expected {:?}", ok_name(raw))); }
                }
                Err(e) => rep.fail("panic", format!("name {raw:?}: panic {e}")),
            }
        }
        for t in FTYPES { for ty in LAYOUTS { for casing in CASINGS {
            let l = DirectoryLayout { ty, casing };
            let Ok(ps) = guarded(|| get_directory_paths(l, t, i)) else { rep.fail("panic", format!("{l:?} {t:?} {i:?}")); continue };
            if ps.is_empty() { continue; }
            rep.case((format!("{l:?}{t:?}"), ps.clone()));
            for p in ps {
                if bad(&p) { rep.fail("location", format!("layout {ty:?} type {t:?} id {i:?}: location {p:?} leaves its base")); }
                let f = FilesystemRemoteFile::new(fs.clone(), SourceLocation::new(p.clone()));
                let fp = f.path();
                if !lexical("/base/dir", fp.to_str().unwrap()) { rep.fail("path", format!("location {p:?} joined to /base/dir is {fp:?}")); }
                if !lexical("/base/dir", &format!("/base/dir/{p}")) { continue; }
                for base in ["", "/", "pre/fix", "/pre/fix/", "p", "/p", "//", "\u{e9}", " ", "//a//b//", ".", "abc"] {
                    let x = SourceLocation::new(p.clone()).prefix(base);
                    let tb = base.trim_matches('/');
                    let want = if tb.is_empty() { p.clone() } else { format!("{tb}/{p}") };
                    if x != want { rep.fail("prefix", format!("location {p:?} with prefix {base:?} is {x:?}")); }
                }
                match HttpRemoteFile::new(http.clone(), SourceLocation::new(p.clone())).url() {
                    Ok(u) => {
                        let ok = u.host_str() == Some("host.example") && lexical("/base/dir", u.path()) && u.query().is_none() && u.fragment().is_none();
                        if !ok { rep.fail("url", format!("location {p:?} joined to {url} is {u}")); }
                        if p.contains('%') { rep.sample(format!("{p:?} -> {u}")); }
                    }
                    Err(e) => rep.fail("url", format!("location {p:?}: {e}")),
                }
            }
        } } }
    }
    rep.done();
}
