use std::collections::BTreeSet;
use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
fn line_entry(l: &str) -> Option<String> {
    let mut q = l.chars(); let mut seen = 0; let mut e = String::new(); let mut any = false;
    while let Some(c) = q.next() { if c == '"' { seen += 1; if seen == 1 { any = true; } if seen == 2 { break; } continue; } if seen == 1 { e.push(c); } }
    if !any { return None; }
    let k = e.find('\\')?;
    Some(format!("{}/{}/{}", &e[..k], &e[k + 1..], &e[..k]))
}
fn set(i: &SymstoreIndex) -> Vec<String> { i.iter().map(|s| s.to_string()).collect() }
fn want_lines(bytes: &[u8]) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut rest = bytes;
    while !rest.is_empty() {
        let (l, r) = match rest.iter().position(|b| *b == b'\n') { Some(k) => { let mut l = &rest[..k]; if l.last() == Some(&b'\r') { l = &l[..l.len() - 1]; } (l, &rest[k + 1..]) }, None => (rest, &rest[rest.len()..]) };
        v.push(std::str::from_utf8(l).ok()?.to_string()); rest = r;
    }
    Some(v)
}
fn main() {
    let mut rep = Rep::new("upload logs assembled from line shapes (valid, unquoted, no backslash, empty fields, CR, non-ASCII, invalid UTF-8, unterminated quotes), indexes written and loaded back, appended; distinct by log text");
    let mut r = Rng::new(seed());
    let shapes: [&[u8]; 22] = [b"\"a.dll\\1234\",\"D:\\x\\a.dll\"", b"\"a.dll\\1234\"", b"\"b.pdb\\AB\\CD\",\"x\"", b"a.dll\\1234", b"\"a.dll/1234\",\"x\"", b"", b"\"\",\"x\\y\"", b"\"\\\",\"z\"", b"x\"c\\d\"y", b"\"unterminated\\1", b"\"", b"\"\"\"a\\b\"", b"\"caf\xc3\xa9.dll\\9\",", b"\"e.dll\\1\r\",", b" \"sp ace.dll\\2 \",", b"\"A.DLL\\1234\",\"q\"", b"\"f\\\",\"z\"", b"\"\\id\",\"z\"", b"\"g\xff\\1\"", b"\"h\\1\"\r", b"\r", b"\"i/j\\k\""];
    let n = if thorough() { 600000 } else { 60000 };
    for _ in 0..n {
        let mut txt: Vec<u8> = vec![];
        let k = r.below(6);
        for j in 0..k {
            let mut s = r.below(shapes.len()); if s == 18 && r.below(10) > 0 { s = 0; }
            txt.extend_from_slice(shapes[s]);
            if r.below(3) == 0 { txt.extend_from_slice(format!("{}", r.below(50)).as_bytes()); }
            if j + 1 < k || r.below(2) == 0 { txt.extend_from_slice([&b"\n"[..], b"\r\n", b"\n\n"][r.below(3)]); }
        }
        rep.case(&txt);
        let shown = String::from_utf8_lossy(&txt).to_string();
        let want = want_lines(&txt).map(|v| v.iter().filter_map(|l| line_entry(l)).collect::<BTreeSet<String>>());
        let got = guarded(|| SymstoreIndex::parse_from_reader(&txt[..]).ok());
        let idx = match got {
            Ok(g) => { let gs = g.as_ref().map(|g| set(g).into_iter().collect::<BTreeSet<_>>());
                if gs != want { rep.fail("parse", format!("log {shown:?}: got {gs:?}, expected {want:?}")); }
                if let Some(g) = &g { if set(g).len() != gs.unwrap().len() { rep.fail("dup", format!("log {shown:?}: duplicate entries")); } }
                g }
            Err(e) => { rep.fail("panic", format!("log {shown:?}: panic {e}")); continue; }
        };
        let Some(idx) = idx else { continue };
        if set(&idx).len() > 2 { rep.sample(format!("{shown:?} -> {:?}", set(&idx))); }
        let mut out = vec![];
        if idx.write(&mut out).is_err() { rep.fail("write", format!("log {shown:?}: write to memory failed")); continue; }
        match guarded(|| SymstoreIndex::load(&out).map(|x| set(&x))) {
            Ok(Ok(l)) => if l != set(&idx) { rep.fail("roundtrip", format!("index {:?} loads back as {l:?}", set(&idx))); },
            Ok(Err(e)) => rep.fail("roundtrip", format!("index {:?} does not load back: {e}", set(&idx))),
            Err(e) => rep.fail("panic", format!("load of {out:?}: panic {e}")),
        }
        let ns = r.below(4); let sh: Vec<&[u8]> = (0..ns).map(|_| shapes[r.below(18)]).collect();
        let other = SymstoreIndex::parse_from_reader(&sh.join(&b'\n')[..]).unwrap();
        let mut u: BTreeSet<String> = set(&idx).into_iter().collect(); u.extend(set(&other));
        let mut a = idx.clone(); a.append(other.clone());
        if set(&a) != u.iter().cloned().collect::<Vec<_>>() { rep.fail("append", format!("{:?} append {:?} = {:?}", set(&idx), set(&other), set(&a))); }
        for p in u.iter() { if !a.contains(p) || !SourceIndex::Symstore(a.clone()).contains(p) { rep.fail("contains", format!("{p:?} not found in {:?}", set(&a))); }
            for q in [p.to_uppercase(), format!("{p}x"), p[..p.len() - p.chars().last().map_or(0, |c| c.len_utf8())].to_string(), p.replace('/', "\\")] { if a.contains(&q) != u.contains(&q) { rep.fail("contains", format!("{q:?} membership wrong in {:?}", set(&a))); } } }
    }
    // load of arbitrary text: every line, verbatim
    for t in ["", "a", "a\n", "a\nb", "a\r\nb\r\n", "\n", "\n\n", "a\n\nb", "caf\u{e9}/1/x\n", " a \n\tb\n"] {
        rep.case(t);
        let want: BTreeSet<String> = { let mut v: Vec<&str> = t.split('\n').collect(); if v.last() == Some(&"") { v.pop(); } v.into_iter().filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
        let got: BTreeSet<String> = set(&SymstoreIndex::load(t.as_bytes()).unwrap()).into_iter().collect();
        if got != want { rep.fail("load", format!("{t:?}: got {got:?}, expected {want:?}")); }
    }
    if SymstoreIndex::load(b"a\xff\n").is_ok() { rep.fail("load", "invalid UTF-8 accepted".into()); }
    rep.done();
}
