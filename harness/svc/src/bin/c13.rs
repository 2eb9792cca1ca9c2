//! Downloads in parts against a scripted server: the byte ranges asked for, and the file they make
use std::sync::{Arc, Mutex};
use symbolicator_service::config::Config;
use symbolicator_service::caching::CacheError;
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
const SPLIT: u64 = 128 << 20;
#[derive(Clone)]
enum First { Honest(u64), Header(String, u64), NoHeader, Plain, Status(u16) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Parts { Honest, Full, Shifted, OtherTotal, Missing, Fail, Shorter, NoHeader }
#[derive(Clone)]
struct Server { size: u64, first: First, parts: Parts, chunk: usize, serve: bool }
/// byte i of the remote file
fn block() -> Vec<u8> { let mut x = 7u32; (0..1_000_003).map(|_| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); (x >> 24) as u8 }).collect() }
fn slice(b: &[u8], from: u64, to: u64) -> Vec<u8> { let mut v = Vec::with_capacity((to - from) as usize); let mut at = from; while at < to { let o = (at % b.len() as u64) as usize; let n = (b.len() - o).min((to - at) as usize); v.extend_from_slice(&b[o..o + n]); at += n as u64; } v }
/// the reading of a Content-Range header: a byte range of known size, inside the resource
fn reading(h: &str) -> Option<(u64, u64, u64)> {
    let h = h.trim(); let i = h.find(' ')?; if &h[..i] != "bytes" { return None; } let u = h[i + 1..].trim();
    let i = u.find('/')?; let (r, t) = (&u[..i], &u[i + 1..]); let i = r.find('-')?;
    let n = |s: &str| -> Option<u64> { let s = s.trim(); let d = s.strip_prefix('+').unwrap_or(s); if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; } let mut v = 0u64; for b in d.bytes() { v = v.checked_mul(10)?.checked_add((b - b'0') as u64)?; } Some(v) };
    let (a, b, t) = (n(&r[..i])?, n(&r[i + 1..])?, n(t)?);
    if a <= b && (b < t || b == 0 && t == 0) { Some((a, b, t)) } else { None }
}
fn main() {
    let mut rep = Rep::new("downloads of files of many sizes (to 2^43 bytes, the larger ones without their content) whose first answer is a range of any length, the full file, or has a Content-Range of any form (well-formed, malformed, foreign unit, unknown size, outside the file, not starting at 0, absent), and whose parts are answered with the asked bytes in chunks of any size, or with anything else: the ranges asked for follow the first one to the end of the file, at most four, without gaps; a file that is reported as downloaded is the remote file; honest servers are never refused; distinct by case");
    let sc = Scratch::new("c13"); let rt = rt_paused(); let mut rng = rng::Rng::new(seed());
    let dl = downloader(&Config { deny_list_enabled: false, ..Config::default() }, &rt);
    let blk = Arc::new(block());
    let log: Arc<Mutex<Vec<Option<(u64, u64)>>>> = Default::default();
    let srv: Arc<Mutex<Server>> = Arc::new(Mutex::new(Server { size: 0, first: First::Plain, parts: Parts::Honest, chunk: 0, serve: true }));
    let (l2, s2, b2) = (log.clone(), srv.clone(), blk.clone());
    reqwest::vp::install(Arc::new(move |r, _| {
        let s = s2.lock().unwrap().clone();
        let range = r.headers().get("range").map(|v| v.to_str().unwrap().to_string());
        let asked = range.as_deref().map(|v| { let v = v.strip_prefix("bytes=").unwrap_or("x"); let (a, b) = v.split_once('-').unwrap_or(("x", "x")); (a.parse().unwrap_or(u64::MAX), b.parse().unwrap_or(0)) });
        let first = { let mut l = l2.lock().unwrap(); let f = matches!(asked, Some((0, _))); l.push(asked); f };
        let body = |mut rep: Reply, a: u64, b: u64| { rep.body = if !s.serve || a > b { vec![] } else { let v = slice(&b2, a, b + 1); if s.chunk == 0 { vec![Ok(v)] } else { v.chunks(s.chunk).map(|c| Ok(c.to_vec())).collect() } }; rep };
        let cr = |a: u64, b: u64, t: u64| Reply::status(206, b"").header("content-range", &format!("bytes {a}-{b}/{t}"));
        let full = || { let mut r = Reply::status(200, b""); if s.size > 0 { r = body(r, 0, s.size - 1); } r };
        let Some((a, b)) = asked else { return full() };
        if first { return match &s.first {
            First::Honest(n) => if s.size == 0 { cr(0, 0, 0) } else { let e = b.min(n - 1).min(s.size - 1); body(cr(0, e, s.size), 0, e) },
            First::Header(h, n) => { let r = Reply::status(206, b"").header("content-range", h); if s.size == 0 { r } else { body(r, 0, (*n).min(s.size) - 1) } }
            First::NoHeader => body(Reply::status(206, b""), 0, s.size / 2),
            First::Plain => full(), First::Status(c) => Reply::status(*c, b"no"),
        }; }
        if a > b || a >= s.size { return Reply::status(416, b""); }
        let e = b.min(s.size - 1);
        let mut rp = match s.parts {
            Parts::Honest => body(cr(a, e, s.size), a, e), Parts::Full => full(),
            Parts::Shifted => body(cr(a - 1, e - 1, s.size), a - 1, e - 1), Parts::OtherTotal => body(cr(a, e, s.size + 1), a, e), Parts::Shorter => if e > a { body(cr(a, e - 1, s.size), a, e - 1) } else { Reply::status(500, b"") },
            Parts::Missing => Reply::status(404, b"gone"), Parts::Fail => Reply::failing("reset"), Parts::NoHeader => body(Reply::status(206, b""), a, e) };
        rp.delay = std::time::Duration::from_millis(10); rp
    }));
    let src: Arc<HttpSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "s", "url": "https://files.example/", "layout": {"type": "native"}})).unwrap());
    let file = sc.0.join("f");
    let mut run = |rep: &mut Rep, name: &str, s: Server, must: bool| {
        log.lock().unwrap().clear(); *srv.lock().unwrap() = s.clone();
        rep.case(name);
        let res = guarded(|| rt.block_on(dl.download(HttpRemoteFile::new(src.clone(), SourceLocation::new("f")).into(), file.clone())));
        let res = match res { Ok(r) => r, Err(p) => { rep.fail("panic", format!("{name}: {p}")); return } };
        if matches!(res, Err(CacheError::InternalError)) && s.serve { rep.fail("panic", format!("{name}: internal error (the download task stopped)")); }
        let l = log.lock().unwrap().clone();
        // attempts of the retry loop
        let mut at: Vec<Vec<Option<(u64, u64)>>> = vec![]; for q in l { if matches!(q, Some((0, _))) || at.is_empty() { at.push(vec![]); } at.last_mut().unwrap().push(q); }
        let told: Option<(u64, u64, u64)> = match &s.first { First::Honest(n) => Some(if s.size == 0 { (0, 0, 0) } else { (0, (SPLIT.min(*n).min(s.size)) - 1, s.size) }), First::Header(h, _) => reading(h), _ => None };
        for a in &at {
            let parts: Vec<(u64, u64)> = a[1..].iter().flatten().copied().collect();
            if a.len() - 1 > parts.len() && !parts.is_empty() { rep.fail("mixed", format!("{name}: plain and ranged requests in one attempt: {a:?}")); continue }
            match told {
                Some((0, e, t)) => {
                    let mut next = e + 1; let mut ok = parts.len() <= 4 && a.len() == parts.len() + 1;
                    let mut p = parts.clone(); p.sort();
                    for (x, y) in &p { ok &= *x <= *y && *y < t && (*x == next || *x + 1 == next && *x > e); next = y + 1; }
                    if t > 0 && !(ok && next == t) || t == 0 && !parts.is_empty() { rep.fail("ranges", format!("{name}: after the first {} of {t} bytes it asked for {parts:?}", e + 1)); }
                }
                _ => if !parts.is_empty() { rep.fail("accepted", format!("{name}: an answer that is not a first byte range of the file was continued with {parts:?}")); }
            }
        }
        match res {
            Ok(()) if s.serve => { use std::io::Read; let mut f = std::fs::File::open(&file).unwrap(); let len = f.metadata().unwrap().len(); let mut bad = (len != s.size).then(|| format!("{len} bytes instead of {}", s.size)); let mut buf = vec![0u8; blk.len()]; let mut at = 0u64; while bad.is_none() && at < len { let n = buf.len().min((len - at) as usize); f.read_exact(&mut buf[..n]).unwrap(); if buf[..n] != blk[..n] { let k = (0..n).find(|k| buf[*k] != blk[*k]).unwrap(); bad = Some(format!("byte {} differs", at + k as u64)); } at += n as u64; } if let Some(b) = bad { rep.fail("content", format!("{name}: reported as downloaded, but {b}")); } }
            Ok(()) => {}
            Err(e) if must => rep.fail("refused", format!("{name}: {e:?}")),
            Err(_) => {}
        }
        rep.sample(format!("{name}: {} requests", at.iter().map(|a| a.len()).sum::<usize>()));
    };
    // small files, honest servers
    for size in [0u64, 1, 2, 3, 10, 1000, 65_537, 5_000_001] { for first in [1u64, 2, 9, 999, 1000, 65_536, u64::MAX] { for chunk in [0usize, 1, 1000, 3_000_000] { if chunk == 1 && size > 70_000 || chunk > size as usize { continue; } run(&mut rep, &format!("{size} bytes, first range of {first}, chunks of {chunk}"), Server { size, first: First::Honest(first), parts: Parts::Honest, chunk, serve: true }, true); } }
        for chunk in [0usize, 1000, 2_100_000, 3_000_000] { run(&mut rep, &format!("{size} bytes, no ranges, chunks of {chunk}"), Server { size, first: First::Plain, parts: Parts::Honest, chunk, serve: true }, true); }
        if size > 0 { run(&mut rep, &format!("{size} bytes, 206 without a range"), Server { size, first: First::NoHeader, parts: Parts::Honest, chunk: 0, serve: true }, true); }
        run(&mut rep, &format!("{size} bytes, 416"), Server { size, first: First::Status(416), parts: Parts::Honest, chunk: 0, serve: true }, true);
        for c in [404u16, 403, 500, 302] { run(&mut rep, &format!("{size} bytes, status {c}"), Server { size, first: First::Status(c), parts: Parts::Honest, chunk: 0, serve: true }, false); }
        for parts in [Parts::Full, Parts::Shifted, Parts::OtherTotal, Parts::Missing, Parts::Fail, Parts::Shorter, Parts::NoHeader] { for first in [1u64, 5, 1000] { run(&mut rep, &format!("{size} bytes, first range of {first}, parts answered: {parts:?}"), Server { size, first: First::Honest(first), parts, chunk: 0, serve: true }, false); } }
    }
    // headers
    let mut hs: Vec<String> = ["bytes 0-9/1000", "bytes  0-9/1000", " bytes 0-9/1000 ", "bytes 0 - 9 / 1000", "bytes 0- 9/ 1000", "Bytes 0-9/1000", "BYTES 0-9/1000", "bits 0-9/1000", "items 0-9/1000", "bytes", "bytes ", "0-9/1000", "bytes=0-9/1000", "bytes:0-9/1000", "bytes 0-9", "bytes 0-9/", "bytes 0-9/*", "bytes */1000", "bytes */*", "bytes * /1000", "bytes 9-0/1000", "bytes 1-9/1000", "bytes 5-9/1000", "bytes 999-999/1000", "bytes -9/1000", "bytes 0-/1000", "bytes -/1000", "bytes 0-9-9/1000", "bytes 0-9/1000/2", "bytes 0--9/1000", "bytes a-9/1000", "bytes 0-a/1000", "bytes 0-9/a", "bytes 0x0-0x9/1000", "bytes +0-+9/+1000", "bytes 0-9/1000;x", "bytes 0-9/1000, bytes 10-19/1000", "bytes 0-999/1000", "bytes 0-1000/1000", "bytes 0-1001/1000", "bytes 0-9/9", "bytes 0-9/10", "bytes 0-9/5", "bytes 0-9/0", "bytes 0-0/0", "bytes 1-1/0", "bytes 0-0/1", "bytes 0-18446744073709551615/1000", "bytes 0-18446744073709551615/18446744073709551615", "bytes 0-18446744073709551616/18446744073709551617", "bytes 18446744073709551615-18446744073709551615/18446744073709551615", "bytes 0-18446744073709551614/1000", "bytes\t0-9/1000", "bytes 0-9\t/1000", "bytes 00-09/01000"].iter().map(|s| s.to_string()).collect();
    for _ in 0..if thorough() { 6000 } else { 600 } { let mut t: Vec<u8> = format!("bytes {}-{}/{}", rng.below(3), rng.below(1200), 1000).into_bytes(); for _ in 0..rng.below(3) { let k = rng.below(t.len()); match rng.below(3) { 0 => { t.remove(k); }, 1 => t.insert(k, b" -/*0195b+"[rng.below(10)]), _ => t[k] = b" -/*0195s"[rng.below(9)] } if t.is_empty() { break; } } hs.push(String::from_utf8(t).unwrap()); }
    for h in &hs { let want = reading(h); if want.is_some_and(|(_, _, t)| t != 1000 && t != 0) { // a different file size: the ranges only
            let (_, _, t) = want.unwrap(); run(&mut rep, &format!("Content-Range {h:?}"), Server { size: t.min(100_000), first: First::Header(h.clone(), 10), parts: Parts::Missing, chunk: 0, serve: false }, false); continue }
        let n = match want { Some((_, e, _)) => e + 1, None => 10 };
        if want.is_some_and(|(_, _, t)| t == 0) { run(&mut rep, &format!("Content-Range {h:?}"), Server { size: 0, first: First::Header(h.clone(), 1), parts: Parts::Honest, chunk: 0, serve: false }, true); continue }
        run(&mut rep, &format!("Content-Range {h:?}"), Server { size: 1000, first: First::Header(h.clone(), n), parts: Parts::Honest, chunk: 0, serve: true }, true);
    }
    // large files, without their content
    let mut sizes: Vec<(u64, u64)> = vec![];
    for k in 0..7u64 { for d in [-2i64, -1, 0, 1, 2, 3] { for f in [1u64, 10, 1000, SPLIT - 1, SPLIT] { sizes.push(((k * SPLIT).saturating_add_signed(d) + f, f)); } } }
    for _ in 0..if thorough() { 3000 } else { 250 } { let b = 20 + rng.below(23); sizes.push(((rng.next() >> (64 - b)).max(2), 1 + (rng.next() >> (64 - 1 - rng.below(27))))); }
    for (size, f) in sizes { if size == 0 { continue; } run(&mut rep, &format!("{size} bytes, first range of {f}, no content"), Server { size, first: First::Honest(f), parts: Parts::Honest, chunk: 0, serve: false }, false); }
    // large files with content
    for (size, f, chunk) in [(3 * SPLIT + 5_000_003, 5_000_000u64, 9_000_001usize), (2 * SPLIT + 17, 17, 0)] { run(&mut rep, &format!("{size} bytes, first range of {f}, chunks of {chunk}"), Server { size, first: First::Honest(f), parts: Parts::Honest, chunk, serve: true }, true); }
    drop(sc);
    rep.done();
}
