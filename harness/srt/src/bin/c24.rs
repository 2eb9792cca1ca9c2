//! modules split by the built wasm-split binary, compared section by section
use vp_src::{rng::Rng, *};
use vp_srt::*;
type Sec = (u8, Vec<u8>);
fn uleb(v: &mut Vec<u8>, mut x: usize, pad: usize) { let mut n = 0; loop { let b = (x & 0x7f) as u8; x >>= 7; n += 1; if x == 0 && n >= pad { v.push(b); return; } v.push(b | 0x80); } }
fn rleb(d: &[u8], p: &mut usize) -> Option<usize> { let (mut r, mut s) = (0usize, 0); loop { let b = *d.get(*p)?; *p += 1; r |= ((b & 0x7f) as usize) << s; s += 7; if b & 0x80 == 0 { return Some(r); } if s > 35 { return None; } } }
fn enc(ss: &[(u8, Vec<u8>)], r: &mut Rng) -> Vec<u8> { let mut v = b"\0asm\x01\0\0\0".to_vec(); for (t, d) in ss { v.push(*t); uleb(&mut v, d.len(), [1, 1, 5][r.below(3)]); v.extend(d); } v }
fn dec(d: &[u8]) -> Option<Vec<Sec>> { if d.get(..8)? != b"\0asm\x01\0\0\0" { return None; } let mut p = 8; let mut o = vec![]; while p < d.len() { let t = d[p]; p += 1; let n = rleb(d, &mut p)?; o.push((t, d.get(p..p + n)?.to_vec())); p += n; } Some(o) }
fn name(s: &Sec) -> Option<String> { if s.0 != 0 { return None; } let mut p = 0; let n = rleb(&s.1, &mut p)?; String::from_utf8(s.1.get(p..p + n)?.to_vec()).ok() }
fn cus(n: &str, d: &[u8]) -> Sec { let mut v = vec![]; uleb(&mut v, n.len(), 1); v.extend(n.as_bytes()); v.extend(d); (0, v) }
fn body(s: &Sec) -> Vec<u8> { let mut p = 0; let n = rleb(&s.1, &mut p).unwrap(); s.1[p + n..].to_vec() }
fn vecd(d: &[u8]) -> Vec<u8> { let mut v = vec![]; uleb(&mut v, d.len(), 1); v.extend(d); v }
/// a well-formed build id section
fn bid(s: &Sec) -> Option<Vec<u8>> { if name(s)? != "build_id" { return None; } let b = body(s); let mut p = 0; let n = rleb(&b, &mut p)?; if b.len() == p + n { Some(b[p..].to_vec()) } else { None } }
fn main() {
    let mut rep = Rep::new("wasm modules of random standard and custom sections (debug, names, producers, unknown, look-alike names, malformed name and build id sections, padded lengths) under every option combination; distinct by (options, module)");
    let mut r = Rng::new(seed() ^ 24);
    let s = Scratch::new("c24");
    let bin = std::env::current_exe().unwrap().with_file_name("wasm-split");
    let n = if thorough() { 6000 } else { 700 };
    for it in 0..n {
        // standard sections in order, custom ones in between
        let std_: Vec<Sec> = vec![(1, vec![1, 0x60, 0, 0]), (3, vec![1, 0]), (5, vec![1, 0, 1]), (7, vec![0]), (10, vec![1, 2, 0, 0x0b]), (11, vec![0])];
        let mut ss: Vec<Sec> = std_.into_iter().filter(|x| [1, 3, 10].contains(&x.0) || r.below(2) == 0).collect();
        let had = r.below(3); // no, one, several build ids
        let nc = r.below(7);
        let mut cs: Vec<Sec> = vec![];
        for _ in 0..nc {
            let d: Vec<u8> = { let k = r.below(40); rb(&mut r, k) };
            cs.push(match r.below(13) {
                0 | 1 | 2 => cus([".debug_info", ".debug_line", ".debug_str", ".debug_"][r.below(4)], &d),
                3 => cus("name", &[1, 4, 1, 0, 1, b'f']), 4 => cus("name", &[0xff, 0xff]),
                5 => cus("producers", &[0]), 6 => cus("producers", &d),
                7 => cus([".debug", "debug_info", "xx.debug_info", ".debu", "", ".DEBUG_info", "reloc..debug_info", ".debug-x"][r.below(8)], &d),
                8 => cus("target_features", &d), 9 => cus("sourceMappingURL", &vecd(b"http://x/y.map")), 10 => cus("external_debug_info", &vecd(b"old.wasm")),
                11 => cus("build_id", &[9, 1, 2]), _ => cus(["linking", "a\u{e9}", "reloc.CODE"][r.below(3)], &d),
            });
        }
        for _ in 0..had { let k = [16, 20, 1, 0][r.below(4)]; let id = rb(&mut r, k); cs.push(cus("build_id", &vecd(&id))); }
        for c in cs { let at = r.below(ss.len() + 1); ss.insert(at, c); }
        let d = enc(&ss, &mut r);
        let root = s.0.join(format!("m{it}")); std::fs::create_dir_all(root.join("dir")).unwrap();
        std::fs::write(root.join("in.wasm"), &d).unwrap();
        let o = r.below(64);
        let mut args: Vec<String> = vec!["in.wasm".into()];
        let (out, dbg, strip, names, given, url) = (o & 1 > 0, o & 2 > 0, o & 4 > 0, o & 8 > 0, o & 16 > 0, o & 32 > 0);
        if out { args.extend(["-o".into(), "main.wasm".into()]); }
        if dbg { args.extend(["-d".into(), "dir/x.debug.wasm".into()]); }
        if strip { args.push("--strip".into()); }
        if names { args.push("--strip-names".into()); }
        let g: Vec<u8> = (1..17).collect();
        if given { args.extend(["--build-id".into(), "01020304-0506-0708-090a-0b0c0d0e0f10".into()]); }
        if url { args.extend(["--external-dwarf-url".into(), "https://e/x.wasm".into()]); }
        let id = format!("{args:?} on {:?}", ss.iter().map(|x| name(x).map(|n| format!("{n}:{}", x.1.len())).unwrap_or(format!("#{}", x.0))).collect::<Vec<_>>());
        rep.case((o, d.clone()));
        rep.sample(id.clone());
        let x = std::process::Command::new(&bin).args(&args).current_dir(&root).output().unwrap();
        let (so, se) = (String::from_utf8_lossy(&x.stdout).trim().to_string(), String::from_utf8_lossy(&x.stderr).to_string());
        if !x.status.success() { rep.fail("run", format!("{id}: {se}")); let _ = std::fs::remove_dir_all(&root); continue; }
        let rd = |n: &str| std::fs::read(root.join(n)).ok().and_then(|d| dec(&d));
        let old = ss.iter().find_map(bid);
        let main = rd(if out { "main.wasm" } else { "in.wasm" });
        if out && rd("in.wasm").as_ref() != Some(&ss) { rep.fail("input", format!("{id}: the input file changed")); }
        let Some(mut main) = main else { rep.fail("main", format!("{id}: no main file")); let _ = std::fs::remove_dir_all(&root); continue };
        let new = if old.is_none() { main.iter().filter(|m| bid(m).is_some()).last().and_then(bid) } else { None };
        let mut base = ss.clone();
        if old.is_none() {
            match &new { None => { rep.fail("id", format!("{id}: no build id was added")); } Some(n) => { base.push(cus("build_id", &vecd(n))); if given && *n != g { rep.fail("id", format!("{id}: the given build id was not used")); } if n.len() != 16 { rep.fail("id", format!("{id}: build id of {} bytes", n.len())); } } }
        }
        let eid = old.clone().or(new.clone()).unwrap_or_default();
        let hex: String = eid.iter().map(|b| format!("{b:02x}")).collect();
        if so != hex { rep.fail("printed", format!("{id}: prints {so}, the files carry {hex}")); }
        if dbg {
            match rd("dir/x.debug.wasm") { None => rep.fail("debug", format!("{id}: no debug file")), Some(m) => if m != base { rep.fail("debug", format!("{id}: debug file sections {:?} differ from the input with its build id", m.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>())); } }
        }
        let u = if url { Some("https://e/x.wasm") } else if dbg { Some("x.debug.wasm") } else { None };
        if let Some(u) = u { if main.last() != Some(&cus("external_debug_info", &vecd(u.as_bytes()))) { rep.fail("url", format!("{id}: last section of the main file is not the reference to {u}")); } else { main.pop(); } }
        let is_name = |x: &Sec| name(x).as_deref() == Some("name");
        let want: Vec<Sec> = base.iter().filter(|x| !(strip && (name(x).is_some_and(|n| n.starts_with(".debug_")) || names && is_name(x)))).cloned().collect();
        if main != want { rep.fail("main", format!("{id}: main file has {:?}, expected {:?}", main.iter().map(|x| name(x).unwrap_or(format!("#{}", x.0))).collect::<Vec<_>>(), want.iter().map(|x| name(x).unwrap_or(format!("#{}", x.0))).collect::<Vec<_>>())); }
        let _ = std::fs::remove_dir_all(&root);
    }
    rep.done();
}
