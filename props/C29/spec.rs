use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- dependencies (assumed): regions, credentials and AWS clients are known by their texts --------
/// sharing a pointer is sharing the value
pub struct Arc<T> { pub v: T }
impl<T> Arc<T> { pub fn new(v: T) -> (r: Arc<T>) ensures r.v == v { Arc { v } } #[verifier::external_body] pub fn vp_deref(&self) -> (r: &T) ensures *r == self.v { unimplemented!() } }
#[verifier::external_body] pub struct Region { r: u8 }
impl Region { pub uninterp spec fn name(&self) -> Str; #[verifier::external_body] pub fn clone(&self) -> (r: Region) ensures r.name() == self.name() { unimplemented!() } }
#[derive(Clone, Copy)]
//@item crates/symbolicator-sources/src/sources/s3.rs AwsCredentialsProvider
//@item crates/symbolicator-sources/src/sources/s3.rs S3Region
//@item crates/symbolicator-sources/src/sources/s3.rs S3SourceKey
//@item crates/symbolicator-sources/src/sources/gcs.rs GcsSourceKey
pub open spec fn optstr(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
/// everything that decides access of a bucket source
pub struct Access { pub region: Str, pub endpoint: Option<Str>, pub provider: AwsCredentialsProvider, pub access: Str, pub secret: Str }
pub open spec fn access_of(k: S3SourceKey) -> Access { Access { region: k.region.region.name(), endpoint: optstr(k.region.endpoint), provider: k.aws_credentials_provider, access: k.access_key@, secret: k.secret_key@ } }
/// == on the parts of a key (std and derived comparisons, assumed to compare the whole value)
impl vstd::std_specs::cmp::PartialEqSpecImpl for Region { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Region) -> bool { self.name() == o.name() } }
impl PartialEq for Region { #[verifier::external_body] fn eq(&self, o: &Region) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for S3Region { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &S3Region) -> bool { self.region.name() == o.region.name() && optstr(self.endpoint) == optstr(o.endpoint) } }
impl PartialEq for S3Region { #[verifier::external_body] fn eq(&self, o: &S3Region) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AwsCredentialsProvider { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &AwsCredentialsProvider) -> bool { *self == *o } }
impl PartialEq for AwsCredentialsProvider { #[verifier::external_body] fn eq(&self, o: &AwsCredentialsProvider) -> bool { unimplemented!() } }

// ---- two keys are equal exactly if everything that decides access is -------------------------------
impl S3SourceKey {
//@fn crates/symbolicator-sources/src/sources/s3.rs <PartialEq for S3SourceKey>::eq as=vp_key_eq
//@ret r
//@spec
    ensures r == (access_of(*self) == access_of(*other)),
//@end
}

// ---- the shared cache (moka, assumed): what is read under a key was stored under an equal key -------
pub trait Serves<V> {
    /// the value may be used for this key
    spec fn serves(&self, v: V) -> bool;
    /// the cache's notion of the same key (Eq of the key type, proved above for S3SourceKey, derived for GcsSourceKey)
    spec fn same_key(&self, o: &Self) -> bool;
}
impl Serves<Arc<Client>> for Arc<S3SourceKey> {
    open spec fn serves(&self, v: Arc<Client>) -> bool { client_of(access_of(self.v), v.v) }
    open spec fn same_key(&self, o: &Self) -> bool { access_of(self.v) == access_of(o.v) }
}
impl Serves<CacheContents<GcsToken>> for Arc<GcsSourceKey> {
    open spec fn serves(&self, v: CacheContents<GcsToken>) -> bool { v.is_ok() ==> token_of(v->Ok_0, self.v) }
    open spec fn same_key(&self, o: &Self) -> bool { self.v.private_key@ == o.v.private_key@ && self.v.client_email@ == o.v.client_email@ }
}
pub mod moka { pub mod future {
use super::super::*;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct Cache<K, V> { k: core::marker::PhantomData<(K, V)> }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct Sel<K, V> { pub k: Ghost<K>, pub v: Ghost<Option<V>> }
pub struct Entry<V> { pub v: V }
impl<K: Serves<V>, V> Cache<K, V> {
    #[verifier::external_body] pub fn entry_by_ref(&self, k: &K) -> (r: Sel<K, V>) ensures r.k@ == *k { unimplemented!() }
}
impl<K: Serves<V>, V> Sel<K, V> {
    #[verifier::external_body] pub fn or_insert_with(self, v: V) -> (r: Entry<V>)
        requires self.k@.serves(v)
        ensures exists|k2: K| #[trigger] self.k@.same_key(&k2) && k2.serves(r.v) { unimplemented!() }
    #[verifier::external_body] pub fn or_insert_with_if<F: Fn(&V) -> bool>(self, v: V, f: F) -> (r: Entry<V>)
        requires self.k@.serves(v), forall|x: &V| f.requires((x,))
        ensures exists|k2: K| #[trigger] self.k@.same_key(&k2) && k2.serves(r.v) { unimplemented!() }
}
impl<V> Entry<V> { pub fn into_value(self) -> (r: V) ensures r == self.v { self.v } }
} }

// ---- AWS (assumed): a client uses the credentials, region and endpoint it was configured with -------
pub enum Creds { Keys { access: Str, secret: Str }, Container }
pub open spec fn creds_of(a: Access) -> Creds { match a.provider { AwsCredentialsProvider::Container => Creds::Container, AwsCredentialsProvider::Static => Creds::Keys { access: a.access, secret: a.secret } } }
pub open spec fn client_of(a: Access, c: Client) -> bool { c.s_creds() == Some(creds_of(a)) && c.s_region() == Some(a.region) && c.s_endpoint() == a.endpoint }
#[verifier::external_body] pub struct Client { c: u8 }
#[verifier::external_body] pub struct SdkConfig { c: u8 }
impl Client { pub uninterp spec fn s_creds(&self) -> Option<Creds>; pub uninterp spec fn s_region(&self) -> Option<Str>; pub uninterp spec fn s_endpoint(&self) -> Option<Str>;
    #[verifier::external_body] pub fn new(c: &SdkConfig) -> (r: Client) ensures r.s_creds() == c.s_creds(), r.s_region() == c.s_region(), r.s_endpoint() == c.s_endpoint() { unimplemented!() } }
impl SdkConfig { pub uninterp spec fn s_creds(&self) -> Option<Creds>; pub uninterp spec fn s_region(&self) -> Option<Str>; pub uninterp spec fn s_endpoint(&self) -> Option<Str>;
    #[verifier::external_body] pub fn credentials_provider<P: ProvideCredentials>(self, p: P) -> (r: SdkConfig) ensures r.s_creds() == Some(p.creds()), r.s_region() == self.s_region(), r.s_endpoint() == self.s_endpoint() { unimplemented!() }
    #[verifier::external_body] pub fn region(self, p: Region) -> (r: SdkConfig) ensures r.s_creds() == self.s_creds(), r.s_region() == Some(p.name()), r.s_endpoint() == self.s_endpoint() { unimplemented!() }
    #[verifier::external_body] pub fn endpoint_url(self, p: &String) -> (r: SdkConfig) ensures r.s_creds() == self.s_creds(), r.s_region() == self.s_region(), r.s_endpoint() == Some(p@) { unimplemented!() }
    #[verifier::external_body] pub fn load(self) -> (r: SdkConfig) ensures r == self { unimplemented!() } }
pub mod aws_config { use super::*; #[verifier::external_body] pub fn from_env() -> (r: SdkConfig) ensures r.s_creds() is None, r.s_region() is None, r.s_endpoint() is None { unimplemented!() } }
pub trait ProvideCredentials { spec fn creds(&self) -> Creds; }
#[verifier::external_body] pub struct Credentials { c: u8 }
impl Credentials { pub uninterp spec fn cr(&self) -> Creds; #[verifier::external_body] pub fn from_keys(a: String, s: String, t: Option<String>) -> (r: Credentials) ensures t is None ==> r.cr() == (Creds::Keys { access: a@, secret: s@ }) { unimplemented!() } }
impl ProvideCredentials for Credentials { open spec fn creds(&self) -> Creds { self.cr() } }
pub struct EcsCredentialsProvider {} pub struct EcsBuilder {}
impl EcsCredentialsProvider { pub fn builder() -> EcsBuilder { EcsBuilder {} } }
impl EcsBuilder { pub fn build(self) -> EcsCredentialsProvider { EcsCredentialsProvider {} } }
impl ProvideCredentials for EcsCredentialsProvider { open spec fn creds(&self) -> Creds { Creds::Container } }

pub struct DownloadTimeouts {}
//@item crates/symbolicator-service/src/download/s3.rs ClientCache
pub struct S3Downloader { pub client_cache: ClientCache }
impl S3Downloader {
//@fn crates/symbolicator-service/src/download/s3.rs S3Downloader::create_s3_client async stub=new
//@ret r
//@spec
    ensures r.s_creds() == Some(provider.creds()), r.s_region() == Some(region.region.name()), r.s_endpoint() == optstr(region.endpoint)
//@end
//@fn crates/symbolicator-service/src/download/s3.rs S3Downloader::get_s3_client async stub=new
//@sub? key . region ==> key . v . region
//@sub? key . access_key ==> key . v . access_key
//@sub? key . secret_key ==> key . v . secret_key
//@sub? key . aws_credentials_provider ==> key . v . aws_credentials_provider
//@ret r
//@spec
    ensures key.serves(r)
//@end
}

// ---- Google tokens ---------------------------------------------------------------------------------
#[derive(Clone, Copy)] pub struct Instant0 { t: u64 }
pub struct GcsToken { pub bearer_token: ArcStr, pub expires_at: Instant0 }
#[verifier::external_body] pub struct ArcStr { t: u8 }
impl ArcStr { pub uninterp spec fn text(&self) -> Str; }
pub trait VpIntoArc { spec fn it(&self) -> Str; fn vp_into(self) -> (r: ArcStr) ensures r.text() == old_text(self.it()); }
pub open spec fn old_text(s: Str) -> Str { s }
impl VpIntoArc for String { open spec fn it(&self) -> Str { self@ } #[verifier::external_body] fn vp_into(self) -> (r: ArcStr) { unimplemented!() } }
impl GcsToken { #[verifier::external_body] pub fn is_expired(&self) -> bool { unimplemented!() } }
/// who an access token was granted to: the e-mail and the key text of the assertion it was exchanged for (Google, assumed)
pub struct Grant { pub email: Str, pub signed_with: Str }
pub uninterp spec fn granted(access_token: Str) -> Grant;
pub uninterp spec fn assertion(jwt: Str) -> Grant;
pub open spec fn grant_of(k: GcsSourceKey) -> Grant { Grant { email: k.client_email@, signed_with: pem(k.private_key@) } }
pub open spec fn token_of(t: GcsToken, k: GcsSourceKey) -> bool { exists|a: Str| #[trigger] granted(a) == grant_of(k) && t.bearer_token.text() =~= "Bearer "@ + a }
/// the key text with escaped newlines undone
pub open spec fn pem(k: Str) -> Str { s_replace(k, "\\n"@, "\n"@) }
#[verifier::external_body] #[derive(Debug)] pub struct JwtError { e: u8 }
#[verifier::external_body] pub struct EncodingKey { e: u8 }
impl EncodingKey { pub uninterp spec fn text(&self) -> Str; }
pub uninterp spec fn s_replace(s: Str, a: Str, b: Str) -> Str;
pub trait VpReplace { fn vp_replace_str(&self, a: &str, b: &str) -> String; }
impl VpReplace for str { #[verifier::external_body] fn vp_replace_str(&self, a: &str, b: &str) -> (r: String) ensures r@ == s_replace(self@, a@, b@) { unimplemented!() } }
pub struct Bytes { pub t: Ghost<Str> }
pub trait VpAsBytes { fn vp_bytes(&self) -> Bytes; }
impl VpAsBytes for String { #[verifier::external_body] fn vp_bytes(&self) -> (r: Bytes) ensures r.t@ == self@ { unimplemented!() } }
impl EncodingKey { #[verifier::external_body] pub fn from_rsa_pem(b: Bytes) -> (r: Result<EncodingKey, JwtError>) ensures r.is_ok() ==> r->Ok_0.text() == b.t@ { unimplemented!() } }
//@fn crates/symbolicator-service/src/utils/gcs.rs key_from_string
//@sub? key . replace ( ==> key . vp_replace_str (
//@sub? . as_bytes ( ) ==> . vp_bytes ( )
//@ret r
//@spec
    ensures r.is_ok() ==> r->Ok_0.text() == pem(key@)
//@end
pub mod jsonwebtoken { use super::*; pub enum Algorithm { RS256 } pub struct Header {} impl Header { pub fn new(a: Algorithm) -> Header { Header {} } }
    #[verifier::external_body] pub fn encode(h: &Header, c: &JwtClaims<'_>, k: &EncodingKey) -> (r: Result<String, JwtError>) ensures r.is_ok() ==> assertion(r->Ok_0@) == (Grant { email: c.issuer@, signed_with: k.text() }) { unimplemented!() } }
//@item crates/symbolicator-service/src/utils/gcs.rs JwtClaims
//@item crates/symbolicator-service/src/utils/gcs.rs OAuth2Grant
//@item crates/symbolicator-service/src/utils/gcs.rs GcsTokenResponse
pub struct Utc {} impl Utc { #[verifier::external_body] pub fn now() -> Instant0 { unimplemented!() } }
impl Instant0 { #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) ensures 0 <= r < 0x1000000000000 { unimplemented!() } #[verifier::external_body] pub fn plus(self, d: Duration) -> Instant0 { unimplemented!() } }
pub struct Duration {} impl Duration { pub fn minutes(m: i64) -> Duration { Duration {} } }
#[verifier::external_body] pub struct CacheError { e: u8 }
pub enum GcsError { InvalidUrl, Jwt(JwtError), Auth(reqwest::Error) }
impl vstd::std_specs::convert::FromSpecImpl<JwtError> for GcsError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: JwtError) -> GcsError; }
impl From<JwtError> for GcsError { fn from(e: JwtError) -> GcsError { GcsError::Jwt(e) } }
impl CacheError { #[verifier::external_body] pub fn from(e: GcsError) -> CacheError { unimplemented!() } }
pub type CacheContents<T> = Result<T, CacheError>;
pub use reqwest::Client as HttpClient;
pub mod reqwest { use super::*;
    #[verifier::external_body] pub struct Error { c: u8 }
    #[verifier::external_body] pub struct Client { c: u8 }
    #[verifier::external_body] pub struct Req { c: u8 }
    #[verifier::external_body] pub struct Resp { c: u8 }
    impl Client { #[verifier::external_body] pub fn post(&self, u: &str) -> Req { unimplemented!() } }
    impl Req { pub uninterp spec fn form_of(&self) -> Grant; #[verifier::external_body] pub fn form(self, f: &OAuth2Grant) -> (r: Req) ensures r.form_of() == assertion(f.assertion@) { unimplemented!() }
        #[verifier::external_body] pub fn send(self) -> (r: Result<Resp, Error>) ensures r.is_ok() ==> r->Ok_0.grant() == self.form_of() { unimplemented!() } }
    impl Resp { pub uninterp spec fn grant(&self) -> Grant; #[verifier::external_body] pub fn json<T: Answer>(self) -> (r: Result<T, Error>) ensures r.is_ok() ==> granted(r->Ok_0.token()) == self.grant() { unimplemented!() } }
}
pub trait Answer: Sized { spec fn token(&self) -> Str; }
impl Answer for GcsTokenResponse { open spec fn token(&self) -> Str { self.access_token@ } }
pub mod gcs { use super::*;
//@fn crates/symbolicator-service/src/utils/gcs.rs get_auth_jwt
//@ret r
//@spec
    ensures r.is_ok() ==> assertion(r->Ok_0@) == grant_of(*source_key)
//@end
//@fn crates/symbolicator-service/src/utils/gcs.rs request_new_token async res=map_err
//@sub Client ==> HttpClient
//@sub? Utc::now() + Duration::minutes(58) ==> Utc::now().plus(Duration::minutes(58))
//@sub? ). into ( ) ; ==> ) . vp_into ( ) ;
//@ret r
//@spec
    ensures r.is_ok() ==> token_of(r->Ok_0, *source_key)
//@end
}
//@item crates/symbolicator-service/src/download/gcs.rs GcsTokenCache
pub struct GcsDownloader { pub token_cache: GcsTokenCache, pub client: reqwest::Client }
impl GcsDownloader {
//@fn crates/symbolicator-service/src/download/gcs.rs GcsDownloader::get_token async closures=1 res=map_err,map_or
//@sub? & self . client , source_key ==> & self . client , & source_key . v
//@ret r
//@spec
    ensures source_key.serves(r)
//@end
}
fn main() {}
}
