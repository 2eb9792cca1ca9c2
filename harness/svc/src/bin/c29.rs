//! Keys of bucket sources, and the credentials a download really uses, for every pair of configurations
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, Mutex};
use symbolicator_service::config::Config;
use symbolicator_sources::*;
use aws_credential_types::provider::ProvideCredentials;
use vp_svc::*;
#[derive(Clone, Debug, PartialEq, Hash)]
struct S3 { region: &'static str, endpoint: Option<&'static str>, provider: Option<&'static str>, access: &'static str, secret: &'static str }
impl S3 {
    fn access(&self) -> (String, Option<String>, String, String) { let c = self.provider == Some("container"); (self.region.into(), self.endpoint.map(Into::into), if c { "<container>".into() } else { self.access.into() }, if c { "<container>".into() } else { self.secret.into() }) }
    fn config(&self, bucket: &str) -> Arc<S3SourceConfig> {
        let mut v = serde_json::json!({"id": "s", "bucket": bucket, "access_key": self.access, "secret_key": self.secret, "layout": {"type": "unified"}});
        v["region"] = match self.endpoint { Some(e) => serde_json::json!([self.region, e]), None => serde_json::json!(self.region) };
        if let Some(p) = self.provider { v["aws_credentials_provider"] = p.into(); }
        Arc::new(serde_json::from_value(v).unwrap())
    }
}
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let mut rep = Rep::new("every pair of S3 configurations over two values of each of region, endpoint, provider, access key and secret key (and of GCS keys over e-mail and private key): equality and hash of the keys, and the credentials the AWS client of each download or the token of each GCS request really carries when both are used through one service, in both orders; distinct by pair");
    let rt = rt(); let sc = Scratch::new("c29");
    let mut all = vec![];
    for region in ["us-east-1", "eu-west-1"] { for endpoint in [None, Some("http://a"), Some("http://b")] { for provider in [None, Some("static"), Some("container")] { for access in ["", "k"] { for secret in ["", "k"] {
        all.push(S3 { region, endpoint, provider, access, secret }); } } } } }
    let seen: Arc<Mutex<Option<(String, Option<String>, String, String)>>> = Default::default();
    let s2 = seen.clone();
    aws_sdk_s3::vp::install(Arc::new(move |c, _, _| { let cr = futures::executor::block_on(c.creds.as_ref().unwrap().provide_credentials()).unwrap(); *s2.lock().unwrap() = Some((c.region.as_ref().map(|r| r.as_ref().to_string()).unwrap_or_default(), c.endpoint.clone(), cr.access_key_id().to_string(), cr.secret_access_key().to_string())); aws_sdk_s3::vp::Answer::Body(b"x".to_vec()) }));
    for a in &all { for b in &all {
        rep.case((a, b));
        let (ca, cb) = (a.config("b"), b.config("b"));
        let (ka, kb) = (&ca.source_key, &cb.source_key);
        let same = (a.region, a.endpoint, a.provider.unwrap_or("static"), a.access, a.secret) == (b.region, b.endpoint, b.provider.unwrap_or("static"), b.access, b.secret);
        if (ka == kb) != same { rep.fail("s3-eq", format!("{a:?} and {b:?}: keys compare {}", ka == kb)); }
        if ka == kb && h(ka) != h(kb) { rep.fail("s3-hash", format!("{a:?} and {b:?}: equal keys, different hashes")); }
    } }
    let n = all.len();
    let dl = downloader(&Config::default(), &rt);
    let mut order: Vec<usize> = (0..n).chain((0..n).rev()).collect();
    if thorough() { for i in 0..n { for j in 0..n { order.push(i); order.push(j); } } }
    // one service for everything, and a fresh service per pair
    let mut get = |dl: &Arc<_>, a: &S3, rep: &mut Rep, what: &str| {
        *seen.lock().unwrap() = None;
        let dl: &Arc<symbolicator_service::download::DownloadService> = dl;
        let r = rt.block_on(dl.download(S3RemoteFile::new(a.config("b"), SourceLocation::new("f")).into(), sc.0.join("f")));
        let got = seen.lock().unwrap().clone();
        if r.is_err() { rep.fail("s3-download", format!("{what}{a:?}: {r:?}")); }
        if got != Some(a.access()) { rep.fail("s3-client", format!("{what}{a:?}: the request was made with {got:?}")); }
    };
    for i in order { rep.case(("one", i)); get(&dl, &all[i], &mut rep, "one service for all: "); }
    for a in &all { for b in &all { if a == b { continue; } let dl = downloader(&Config::default(), &rt); rep.case((a, b, "dl")); get(&dl, a, &mut rep, ""); get(&dl, b, &mut rep, &format!("after {a:?}: ")); } }
    rep.sample(format!("{:?} -> {:?}", all[5], all[5].access()));
    // GCS: the stand-in signs claims as "<key>|<claims>", and the token server grants a token that names the assertion
    let bearer: Arc<Mutex<Option<String>>> = Default::default();
    let b2 = bearer.clone();
    reqwest::vp::install(Arc::new(move |r, _| {
        use reqwest::vp::Reply;
        if r.method() == reqwest::Method::POST { let v: serde_json::Value = serde_json::from_slice(r.body().and_then(|b| b.as_bytes()).unwrap_or(b"null")).unwrap_or_default(); let a = v["assertion"].as_str().unwrap_or("").to_string(); let (k, c) = a.split_once('|').unwrap_or(("", "null")); let c: serde_json::Value = serde_json::from_str(c).unwrap_or_default(); let t = format!("{}/{}", k.replace('\n', "_"), c["iss"].as_str().unwrap_or("")); return Reply::ok(serde_json::json!({"access_token": t}).to_string().as_bytes()); }
        *b2.lock().unwrap() = r.headers().get("authorization").and_then(|v| v.to_str().ok()).map(Into::into);
        Reply::ok(b"x")
    }));
    let keys = ["k1", "k2", "", "k1\\nk"]; let mails = ["a@x", "b@x", "", "A@x"];
    let gcs = |k: &str, m: &str| -> Arc<GcsSourceConfig> { Arc::new(serde_json::from_value(serde_json::json!({"id": "g", "bucket": "b", "private_key": k, "client_email": m, "layout": {"type": "unified"}})).unwrap()) };
    let combos: Vec<(&str, &str)> = keys.iter().flat_map(|k| mails.iter().map(move |m| (*k, *m))).collect();
    for a in &combos { for b in &combos {
        rep.case((a, b));
        let (ca, cb) = (gcs(a.0, a.1), gcs(b.0, b.1));
        if (ca.source_key == cb.source_key) != (a == b) { rep.fail("gcs-eq", format!("{a:?} and {b:?}: keys compare {}", ca.source_key == cb.source_key)); }
        if ca.source_key == cb.source_key && h(&ca.source_key) != h(&cb.source_key) { rep.fail("gcs-hash", format!("{a:?}: equal keys, different hashes")); }
        let dl = downloader(&Config::default(), &rt);
        for (x, c) in [(a, ca), (b, cb)] {
            *bearer.lock().unwrap() = None;
            let r = rt.block_on(dl.download(GcsRemoteFile::new(c, SourceLocation::new("f")).into(), sc.0.join("f")));
            let want = format!("Bearer {}/{}", x.0.replace("\\n", "_"), x.1);
            let got = bearer.lock().unwrap().clone();
            if r.is_err() { rep.fail("gcs-download", format!("{x:?}: {r:?}")); }
            if got.as_deref() != Some(&*want) { rep.fail("gcs-token", format!("{a:?} then {b:?}: the request for {x:?} was made with {got:?}")); }
        }
    } }
    rep.sample(format!("{:?}", combos[1]));
    rep.done();
}
