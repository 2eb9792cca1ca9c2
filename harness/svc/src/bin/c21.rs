//! Allowed origins, reserved addresses, and the clients that downloads go through
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::{Arc, Mutex};
use symbolicator_service::{config::Config, utils::http::is_valid_origin};
use symbolicator_sources::*;
use reqwest::vp::Reply;
use vp_svc::*;
#[derive(Clone, Debug)]
struct Pat { scheme: Option<&'static str>, host: &'static str, port: Option<&'static str>, path: Option<String> }
#[derive(Clone, Debug)]
struct Origin { scheme: &'static str, host: &'static str, port: Option<u16>, path: String }
/// the name as it is compared; None: not a domain name
fn name(h: &str) -> Option<String> {
    // an offline build may come without the tables for international names
    if !h.is_ascii() && "http://b\u{fc}cher.example".parse::<url::Url>().is_err() { return None; }
    Some(match h { "l\u{f8}calhost" => "xn--lcalhost-54a".into(), "*.l\u{f8}calhost" => "*.xn--lcalhost-54a".into(), "b\u{fc}cher.example" => "xn--bcher-kva.example".into(), "xn--\u{fc}" | "xn--a" => return None, h => h.to_ascii_lowercase() })
}
impl Pat {
    fn text(&self) -> String { format!("{}{}{}{}", self.scheme.map(|s| format!("{s}://")).unwrap_or_default(), self.host, self.port.map(|p| format!(":{p}")).unwrap_or_default(), self.path.as_ref().map(|p| format!("/{p}")).unwrap_or_default()) }
    fn allows(&self, o: &Origin) -> bool {
        let t = self.text();
        if t == "*" || t == o.text() { return true; }
        if let Some(s) = self.scheme { if s != "*" && s != o.scheme { return false; } }
        let (Some(h), on) = (name(self.host), name(o.host).unwrap()) else { return false };
        let port = o.port.or(match o.scheme { "http" => Some(80), "https" => Some(443), _ => None });
        let host_ok = match (h.as_str(), self.port) {
            ("*", None) => true,
            (h, None) => match h.strip_prefix("*.") { Some(d) => on == d || on.strip_suffix(d).is_some_and(|r| r.ends_with('.')), None => on == h },
            (h, Some(p)) => !h.starts_with("*.") && (h == "*" || h == on) && port.is_some_and(|n| p == n.to_string()),
        };
        host_ok && match self.path.as_deref() { None | Some("*") => true, Some(p) => o.path.starts_with(p.strip_suffix('*').unwrap_or(p)) }
    }
}
impl Origin { fn text(&self) -> String { format!("{}://{}{}/{}", self.scheme, name(self.host).unwrap(), self.port.filter(|p| !(*p == 80 && self.scheme == "http" || *p == 443 && self.scheme == "https")).map(|p| format!(":{p}")).unwrap_or_default(), self.path) }
    fn raw(&self) -> String { format!("{}://{}{}/{}", self.scheme, self.host, self.port.map(|p| format!(":{p}")).unwrap_or_default(), self.path) } }
const RES: [(&str, &str); 14] = [("0.0.0.0", "0.255.255.255"), ("10.0.0.0", "10.255.255.255"), ("100.64.0.0", "100.127.255.255"), ("127.0.0.0", "127.255.255.255"), ("169.254.0.0", "169.254.255.255"), ("172.16.0.0", "172.31.255.255"), ("192.0.0.0", "192.0.0.255"), ("192.0.2.0", "192.0.2.255"), ("192.88.99.0", "192.88.99.255"), ("192.168.0.0", "192.168.255.255"), ("198.18.0.0", "198.19.255.255"), ("198.51.100.0", "198.51.100.255"), ("203.0.113.0", "203.0.113.255"), ("224.0.0.0", "255.255.255.255")];
fn main() {
    let mut rep = Rep::new("origins and pattern lists from schemes, hosts (internationalized, similar ones, wildcards), ports and paths; every reserved range at its edges and inside; downloads from HTTP and GCS sources under both settings");
    let mut rng = rng::Rng::new(seed());
    // origins
    let ohosts = ["example.com", "foo.example.com", "a.foo.example.com", "badexample.com", "example.com.evil.org", "l\u{f8}calhost", "xn--lcalhost-54a", "b\u{fc}cher.example", "localhost", "EXAMPLE.com", "com", "127.0.0.1", "www.example.com", "m.example.com", "example.com.au", "10.0.0.1"];
    let phosts = ["example.com", "foo.example.com", "*.example.com", "*.foo.example.com", "*.com", "*", "Example.COM", "l\u{f8}calhost", "*.l\u{f8}calhost", "xn--lcalhost-54a", "xn--bcher-kva.example", "b\u{fc}cher.example", "*.EXAMPLE.com", "", "*.", "xn--a", "127.0.0.1", "*example.com", "foo.*", "*.*.com"];
    let paths = ["", "a", "assets/", "assets/app.js", "assets", "foo/bar", "assetsx", "as*ts/"];
    let ppaths = ["", "*", "a", "a*", "assets/", "assets/*", "/", "foo/bar", "assets/app.js", "assets**", "**"];
    for k in 0..if thorough() { 3_000_000 } else { 250_000 } {
        let o = Origin { scheme: ["http", "https", "http", "sp"][rng.below(4)], host: ohosts[rng.below(ohosts.len())], port: [None, None, Some(80), Some(443), Some(8080)][rng.below(5)], path: paths[rng.below(paths.len())].into() };
        // the url crate keeps an address with an unknown scheme as it is
        if o.scheme == "sp" && (!o.host.is_ascii() || o.host.to_ascii_lowercase() != o.host) { continue; }
        if name(o.host).is_none() { continue; }
        let n = rng.below(4); let mut ps = vec![];
        for _ in 0..n { ps.push(Pat { scheme: [None, None, Some("http"), Some("https"), Some("sp"), Some("*"), Some("htt"), Some("")][rng.below(8)], host: phosts[rng.below(phosts.len())], port: [None, None, None, Some("80"), Some("443"), Some("8080"), Some(""), Some("8"), Some("*")][rng.below(9)],
            path: if rng.below(3) == 0 { None } else { Some(ppaths[rng.below(ppaths.len())].into()) } }); }
        // hosts close to the origin's own, so that a rule about one part of a name shows
        for p in ps.iter_mut() { if rng.below(3) == 0 {
            let h = o.host; let (first, rest) = h.split_once('.').unwrap_or((h, h));
            let t = match rng.below(8) { 0 => rest.to_string(), 1 => format!("*.{rest}"), 2 => format!("www.{h}"), 3 => h.rsplit_once('.').map_or(h, |x| x.0).to_string(), 4 => format!("{first}.com"), 5 => h.chars().skip(1).collect(), 6 => format!("*.{h}"), _ => h.to_string() };
            if t.is_ascii() && !t.contains("xn--") { p.host = Box::leak(t.into_boxed_str()); }
        } }
        if rng.below(25) == 0 { ps.push(Pat { scheme: Some(o.scheme), host: o.host, port: None, path: Some(o.path.clone()) }); }
        let list: Vec<String> = ps.iter().map(|p| p.text()).collect();
        let Ok(url) = o.raw().parse::<url::Url>() else { rep.fail("parse", o.raw()); continue };
        let want = ps.iter().any(|p| p.allows(&o) || p.text() == url.as_str());
        rep.case((o.raw(), list.clone()));
        match guarded(|| is_valid_origin(&url, &list)) { Ok(g) if g == want => {} g => rep.fail("origin", format!("{} with the patterns {list:?}: allowed {g:?}, expected {want}", o.raw())) }
        if k < 2 { rep.sample(format!("{} {list:?} {want}", o.raw())); }
    }
    // addresses
    let rt = rt(); let seen: Arc<Mutex<Vec<(String, Option<fn(IpAddr) -> bool>, bool)>>> = Default::default(); let s2 = seen.clone();
    reqwest::vp::install(Arc::new(move |q, c| { s2.lock().unwrap().push((q.url().to_string(), c.vp_ip_filter(), c.vp_accepts_invalid_certs())); Reply::ok(b"{\"access_token\": \"x\", \"expires_in\": 3600}") }));
    let sc = Scratch::new("c21"); let mut n = 0;
    for reserved in [false, true] {
        let cfg = Config { connect_to_reserved_ips: reserved, deny_list_enabled: false, ..Config::default() };
        let dl = downloader(&cfg, &rt);
        if dl.can_connect_to_reserved_ips() != reserved { rep.fail("setting", format!("the service says {} for {reserved}", !reserved)); }
        for accept in [false, true] { for web in [false, true] {
            let file: RemoteFile = if web { HttpRemoteFile::from_url("http://10.0.0.1/x".parse().unwrap(), !accept).into() } else {
                let s: Arc<HttpSourceConfig> = Arc::new(serde_json::from_value(serde_json::json!({"id": "s", "url": "https://h.example/sym/", "accept_invalid_certs": accept, "layout": {"type": "native"}})).unwrap()); HttpRemoteFile::new(s, SourceLocation::new("f")).into() };
            n += 1; seen.lock().unwrap().clear();
            let _ = rt.block_on(dl.download(file, sc.0.join(format!("f{n}"))));
            let v = seen.lock().unwrap().clone();
            rep.case((reserved, accept, web));
            if v.is_empty() { rep.fail("request", "no request was made".into()); }
            for (u, filter, inv) in v {
                if inv && !accept { rep.fail("certificates", format!("{u}: invalid certificates are accepted (reserved addresses {reserved})")); }
                if reserved { continue; }
                let Some(f) = filter else { rep.fail("filter", format!("{u}: no address is refused (accept_invalid_certs {accept})")); continue };
                let mut test = |a: IpAddr, res: bool| { rep.case((u.len(), a)); if f(a) && res { rep.fail("address", format!("{a} is contacted although it is reserved")); } };
                for (lo, hi) in RES { let (lo, hi): (u32, u32) = (lo.parse::<Ipv4Addr>().unwrap().into(), hi.parse::<Ipv4Addr>().unwrap().into());
                    for a in [lo, lo + 1, hi - 1, hi, lo + (hi - lo) / 2] { test(IpAddr::V4(a.into()), true); }
                    for _ in 0..2000 { test(IpAddr::V4((lo + rng.next() as u32 % (hi - lo + 1)).into()), true); } }
                for a in [Ipv6Addr::LOCALHOST, Ipv6Addr::UNSPECIFIED, "::ffff:127.0.0.1".parse().unwrap(), "fe80::1".parse().unwrap(), "fd00::1".parse().unwrap(), "2001:db8::1".parse().unwrap()] { test(IpAddr::V6(a), true); }
                for a in ["8.8.8.8", "1.1.1.1", "172.32.0.1", "172.15.255.255", "11.0.0.1", "9.255.255.255", "100.128.0.0", "192.167.255.255", "223.255.255.255"] { if !f(a.parse().unwrap()) { rep.fail("public", format!("{a} is refused although it is public")); } }
            }
        } }
        // Google cloud storage
        let s: Result<Arc<GcsSourceConfig>, _> = serde_json::from_value(serde_json::json!({"id": "g", "bucket": "b", "bearer_token": "t", "client_email": "a@b.c", "private_key": "x", "layout": {"type": "native"}})).map(Arc::new);
        match s { Ok(s) => { n += 1; seen.lock().unwrap().clear(); let _ = rt.block_on(dl.download(RemoteFile::from(GcsRemoteFile::new(s, SourceLocation::new("f"))), sc.0.join(format!("f{n}"))));
            for (u, filter, inv) in seen.lock().unwrap().clone() { rep.case((reserved, &u)); if inv { rep.fail("certificates", format!("{u}: invalid certificates are accepted")); } if !reserved && !filter.is_some_and(|f| !f("127.0.0.1".parse().unwrap())) { rep.fail("filter", format!("{u}: reserved addresses are contacted")); } } }
            Err(e) => { rep.sample(format!("no gcs: {e}")); } }
    }
    rep.done();
}
