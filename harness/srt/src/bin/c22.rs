//! bundle ids given on the command line or derived from file names, run through the built sorter
use vp_src::{rng::Rng, *};
use vp_srt::*;
fn made(s: &str) -> String {
    let mut o = String::new(); let mut bad = false;
    for c in s.chars() { if c.is_ascii_alphanumeric() || ".,-".contains(c) { o.push(c); bad = false; } else if !bad { o.push('_'); bad = true; } }
    o.trim_matches('_').to_string()
}
fn safe(s: &str) -> bool { !matches!(s, "" | "." | "..") && s.chars().all(|c| c.is_ascii_alphanumeric() || ".,-_".contains(c)) }
fn main() {
    let mut rep = Rep::new("bundle ids on the command line and file names of inputs: separators, dot segments, control, non-ASCII and leading/trailing underscore characters; distinct by (mode, name); everything the sorter writes is listed");
    let mut r = Rng::new(seed());
    let s = Scratch::new("c22");
    let parts = ["a", "B", "9", ".", "..", "...", "/", "\\", "_", "__", "-", ",", " ", ":", "é", "\u{1}", "\n", "\u{130}", "%2e", "～", "\u{ff0f}", "\u{202e}", "*", "x.y", "bundles", "refs", "\u{0}"];
    let mut names: Vec<String> = ["", ".", "..", "../x", "../../x", "a/../../b", "/", "a/b", "a\\b", "..\\x", "_a", "a_", "_", "__", "a__b", "a_b", "-", ",", "...", ".a", "a.", "a b", "a:b", "C:x", "./x", "x/.", "x/..", "a\nb", "é", "\u{1}", ".,-", "._.", "_.._", "_._", "..a", "a..", "a\u{0130}", "K\u{212a}", "٣", "a/"].iter().map(|x| x.to_string()).collect();
    for _ in 0..if thorough() { 3000 } else { 220 } { let n = 1 + r.below(4); names.push((0..n).map(|_| parts[r.below(parts.len())]).collect()); }
    let work = s.0.join("w1/w2/w3/w4/w5"); // room for a few parent references
    std::fs::create_dir_all(&work).unwrap();
    names.retain(|n| !n.starts_with('/') && n.matches("..").count() < 4); // nothing that could leave the scratch directory if it were let through
    names.push(work.join("abs").to_string_lossy().into());
    let file = elf(0, Some(&[1, 2, 3, 4, 5, 6]), 1);
    std::fs::create_dir_all(work.join("in/d")).unwrap();
    std::fs::write(work.join("in/d/e.so"), &file).unwrap();
    let obj = "01/0203040506";
    for (n, name) in names.iter().enumerate() {
        for multi in [false, true] {
            let _ = std::fs::remove_dir_all(work.join("out"));
            let (x, want): (_, Option<String>);
            if !multi {
                if name.contains('\0') { continue; }
                x = sort(&work, &["-o", "out", "-q", &format!("--bundle-id={name}"), "in"]);
                want = if safe(name) && made(name) == *name { Some(name.clone()) } else { None };
            } else {
                // an input whose own name is `name`
                let p = format!("in2-{n}/{name}");
                if name.contains('\0') || name.contains("..") && name.contains('/') || name.len() > 200 || name.starts_with('/') { continue; }
                let base = std::path::Path::new(&p).file_name().map(|x| x.to_string_lossy().to_string());
                let dir = work.join(&p);
                if std::path::Path::new(&p).components().any(|c| matches!(c, std::path::Component::ParentDir)) { continue; }
                if std::fs::create_dir_all(&dir).is_err() { continue; }
                std::fs::write(dir.join("e.so"), &file).unwrap();
                x = sort(&work, &["-o", "out", "-q", "--multiple-bundles", &p]);
                want = base.map(|b| made(&b)).filter(|b| safe(b));
                let _ = std::fs::remove_dir_all(work.join(format!("in2-{n}")));
            }
            rep.case((multi, name.clone()));
            rep.sample(format!("{} {name:?} -> {want:?}", if multi { "--multiple-bundles" } else { "--bundle-id" }));
            let mode = if multi { "derived from file name" } else { "given" };
            if x.err.contains("panicked") { rep.fail("panic", format!("bundle id {mode} {name:?}: {}", x.err)); continue; }
            // whatever was written must be the object, its reference and the bundle file
            let all: Vec<String> = tree(&s.0).into_keys().filter(|k| k != "w1/w2/w3/w4/w5/in/d/e.so").collect();
            let pre = "w1/w2/w3/w4/w5/out/";
            let exp: Vec<String> = match &want { Some(b) => { let mut v = vec![format!("{pre}{obj}/executable"), format!("{pre}{obj}/executable.meta"), format!("{pre}{obj}/refs/{b}"), format!("{pre}bundles/{b}")]; v.sort(); v } None => vec![] };
            let norm = |v: &[String]| { let mut v: Vec<String> = v.iter().filter(|k| !k.ends_with("/executable.meta") && !k.ends_with("/executable")).filter(|k| !k.ends_with("/meta")).cloned().collect(); v.sort(); v };
            if x.ok != want.is_some() { rep.fail("accept", format!("bundle id {mode} {name:?}: sorter {} but the id {:?} is {}", if x.ok { "accepts" } else { "refuses" }, want, if want.is_some() { "an ordinary segment" } else { "not one it may use" })); }
            if norm(&all) != norm(&exp) { rep.fail("written", format!("bundle id {mode} {name:?}: files {:?}, expected {:?}", norm(&all), norm(&exp))); }
            for k in &all { if !k.starts_with(pre) { rep.fail("outside", format!("bundle id {mode} {name:?}: wrote {k}, outside the output directory")); let _ = std::fs::remove_file(s.0.join(k)); } }
        }
    }
    rep.done();
}
