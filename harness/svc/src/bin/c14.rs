//! Failing hosts: which requests are still made, for any history of failures and configuration
use std::collections::HashMap;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use symbolicator_service::{caching::CacheError, config::Config};
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
const HOSTS: [&str; 6] = ["a.example", "b.example", "a.example.org", "never.example", "never.example.org", "127.0.0.1"];
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Ans { Ok, Missing, Denied, Fail, Break, Slow }
#[derive(Clone, Debug)]
struct Cfg { window: Duration, bucket: Duration, threshold: usize, block: Duration, on: bool }
#[derive(Default, Clone)]
struct Host { hist: Vec<u128>, blocked: Option<u128> }
fn main() {
    let mut rep = Rep::new("histories of downloads from several hosts (answering, missing, denied, failing, breaking off, too slow) over time, under configurations of window, bucket, threshold and block time of any size (zero, one, far larger than the clock): a host's requests are withheld for the block time exactly when its failures in the window reached the threshold, those of hosts never to be blocked, of built-in sources and of other hosts are not; recording never panics; distinct by step");
    let sc = Scratch::new("c14"); let rt = rt_paused(); let mut rng = rng::Rng::new(seed());
    let asked = Arc::new(AtomicUsize::new(0)); let ans = Arc::new(Mutex::new(Ans::Ok));
    let (a2, s2) = (asked.clone(), ans.clone());
    reqwest::vp::install(Arc::new(move |_, _| { a2.fetch_add(1, SeqCst); match *s2.lock().unwrap() { Ans::Ok => Reply::ok(b"x"), Ans::Missing => Reply::status(404, b""), Ans::Denied => Reply::status(403, b""), Ans::Fail => Reply::status(503, b""), Ans::Break => { let mut r = Reply::ok(b"x"); r.body.push(Err("reset".into())); r } Ans::Slow => { let mut r = Reply::ok(b"x"); r.delay = Duration::from_secs(1000); r } } }));
    let file = |h: &str, id: &str| -> RemoteFile { let s: Arc<HttpSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": id, "url": format!("https://{h}:8080/sym/"), "layout": {"type": "native"}})).unwrap()); HttpRemoteFile::new(s, SourceLocation::new("f")).into() };
    let files: Vec<RemoteFile> = HOSTS.iter().map(|h| file(h, "custom")).collect(); let builtin: Vec<RemoteFile> = HOSTS.iter().map(|h| file(h, "sentry:x")).collect();
    let s = Duration::from_secs; let m = Duration::from_millis;
    let mut cfgs = vec![
        Cfg { window: s(60), bucket: s(5), threshold: 20, block: s(86400), on: true }, Cfg { window: s(60), bucket: s(5), threshold: 3, block: s(100), on: true }, Cfg { window: s(10), bucket: s(3), threshold: 3, block: s(7), on: true },
        Cfg { window: s(5), bucket: m(1), threshold: 2, block: m(1500), on: true }, Cfg { window: s(5), bucket: m(0), threshold: 3, block: s(2), on: true }, Cfg { window: m(0), bucket: s(1), threshold: 1, block: s(2), on: true }, Cfg { window: m(0), bucket: s(1), threshold: 2, block: s(3), on: true },
        Cfg { window: s(4), bucket: s(60), threshold: 2, block: s(3), on: true }, Cfg { window: s(60), bucket: s(5), threshold: 0, block: s(10), on: true }, Cfg { window: s(60), bucket: s(5), threshold: 1, block: m(0), on: true }, Cfg { window: s(60), bucket: s(5), threshold: 2, block: s(50), on: false },
        Cfg { window: s(9_000_000_000), bucket: s(1), threshold: 3, block: s(9_000_000_000), on: true }, Cfg { window: s(30_000_000_000), bucket: s(30_000_000_000), threshold: 4, block: s(20), on: true }, Cfg { window: s(3), bucket: Duration::MAX, threshold: 3, block: s(5), on: true }, Cfg { window: s(60), bucket: m(1), threshold: usize::MAX, block: s(5), on: true } ];
    for _ in 0..if thorough() { 2500 } else { 45 } { let w = rng.below(12_000) as u64; cfgs.push(Cfg { window: m(w), bucket: m(match rng.below(4) { 0 => 1 + rng.below(10) as u64, 1 => 1 + rng.below(500) as u64, 2 => 1 + rng.below(3000) as u64, _ => (w / (1 + rng.below(5) as u64)).max(1) }), threshold: 1 + rng.below(6), block: m(rng.below(9000) as u64), on: true }); }
    for (ci, c) in cfgs.iter().enumerate() {
        for start in [1_700_000_000_123u64, 1_700_000_000_000 - 1_700_000_000_000 % (c.bucket.as_millis().clamp(1, 1 << 40) as u64), 500] {
            vpclock::freeze(UNIX_EPOCH + m(start));
            let cfg = Config { deny_list_enabled: c.on, deny_list_time_window: c.window, deny_list_bucket_size: c.bucket, deny_list_threshold: c.threshold, deny_list_block_time: c.block, deny_list_never_block_hosts: vec!["never.example".into()], max_download_timeout: s(20), ..Config::default() };
            let dl = match guarded(|| downloader(&cfg, &rt)) { Ok(d) => d, Err(e) => { rep.fail("start", format!("config {c:?}: {e}")); continue; } };
            let now = || SystemTime::now(); let _ = now;
            let clock = || vpclock::system().duration_since(UNIX_EPOCH).unwrap().as_millis();
            let (w, b) = (c.window.as_millis(), c.bucket.as_millis().max(1)); let rnd = |t: u128| t - t % b;
            let mut hosts: HashMap<usize, Host> = HashMap::new(); let mut trail = String::new();
            for step in 0..if ci == 0 { 140 } else { 45 } {
                let dt = match rng.below(9) { 0 | 1 => 0, 2 => 1, 3 => rng.below(30) as u128, 4 => b.min(20_000), 5 => (w / 3).min(1 << 40), 6 => w.min(1 << 40), 7 => c.block.as_millis().min(1 << 40) + rng.below(2) as u128, _ => rng.below((w.min(1 << 30) as usize + 2) / 2) as u128 };
                if ci != 0 || rng.below(6) == 0 { vpclock::advance(Duration::from_millis(dt as u64)); }
                let hi = if rng.below(3) == 0 { rng.below(HOSTS.len()) } else { 0 }; let built = rng.below(10) == 0;
                let a = match rng.below(16) { 0 | 1 => Ans::Ok, 2 => Ans::Missing, 3 => Ans::Denied, 4 | 5 => Ans::Break, 6 => Ans::Slow, _ => Ans::Fail };
                *ans.lock().unwrap() = a; let before = asked.load(SeqCst); let t = clock();
                let f = if built { &builtin[hi] } else { &files[hi] };
                let r = match guarded(|| rt.block_on(dl.download(f.clone(), sc.0.join("f")))) { Ok(r) => r, Err(e) => { rep.fail("panic", format!("{c:?}{trail} then {a:?} of {} at {t}: {e}", HOSTS[hi])); break; } };
                let asked = asked.load(SeqCst) - before; let h = hosts.entry(hi).or_default();
                let unsure = h.blocked == Some(t); let shut = c.on && !built && h.blocked.is_some_and(|u| t < u);
                trail += &format!(" {t}:{}{}={a:?}/{asked}", hi, if built { "b" } else { "" });
                rep.case((c.window, c.bucket, c.threshold, c.block, t, hi, a, asked));
                if rep.cases % 997 == 0 { rep.sample(format!("{c:?}{trail}")); }
                let refused = asked == 0 && matches!(&r, Err(CacheError::DownloadError(_)));
                if asked == 0 && !refused { rep.fail("unasked", format!("{c:?}{trail}: no request is made, the answer is {r:?}")); break; }
                if !unsure && shut != refused { rep.fail(if shut { "asked" } else { "refused" }, format!("{c:?}{trail}: {} is {}blocked, {asked} requests are made", HOSTS[hi], if shut { "" } else { "not " })); break; }
                let failed = matches!(a, Ans::Fail | Ans::Break | Ans::Slow);
                if !refused && r.is_err() != (failed || matches!(a, Ans::Missing | Ans::Denied)) { rep.fail("outcome", format!("{c:?}{trail}: {r:?}")); break; }
                if !refused && failed && !built && c.on {
                    h.hist.push(t);
                    let top = h.hist.iter().filter(|x| rnd(t) - rnd(**x) <= w).count();
                    // the record of a host may be dropped once it was idle for the window
                    let mut from = h.hist.len() - 1; while from > 0 && h.hist[from] - h.hist[from - 1] < w { from -= 1; }
                    let low = h.hist[from..].iter().filter(|x| rnd(t) - rnd(**x) <= w).count();
                    let full = if low >= c.threshold { true } else if top < c.threshold { false } else { h.hist.clear(); h.blocked = None; break };
                    if full && HOSTS[hi] != "never.example" { h.blocked = Some(t + c.block.as_millis()); }
                    let _ = step;
                }
            }
        }
    }
    rep.done();
}
