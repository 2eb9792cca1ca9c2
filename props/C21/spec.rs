use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- addresses ---------------------------------------------------------------------------------------
pub mod std_ {}
pub mod net {
    /// an IPv4 address as the number its four bytes make
    #[derive(Clone, Copy)] pub struct Ipv4Addr { pub a: u32 }
    #[derive(Clone, Copy)] pub struct Ipv6Addr { pub a: u128 }
    #[derive(Clone, Copy)] pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
}
pub use net::*;
#[derive(Clone, Copy)] pub struct Ipv4Network { pub a: u32, pub p: u8 }
/// the first p bits of the two addresses are the same
pub open spec fn same_net(x: u32, y: u32, p: u8) -> bool { 0 < p <= 32 && (x >> ((32 - p) as u32)) == (y >> ((32 - p) as u32)) }
impl Ipv4Network { #[verifier::external_body] pub fn vp_contains(&self, x: Ipv4Addr) -> (r: bool) ensures 0 < self.p <= 32 ==> r == same_net(x.a, self.a, self.p) { unimplemented!() } }
/// this network, private networks, shared address space, loopback, link local, protocol assignments, documentation, 6to4 relays, benchmarks, multicast, future use and broadcast
pub open spec fn reserved(x: u32) -> bool {
       (0x00000000u32 <= x && x <= 0x00FFFFFFu32)   // 0.0.0.0 to 0.255.255.255
    || (0x0A000000u32 <= x && x <= 0x0AFFFFFFu32)   // 10.0.0.0 to 10.255.255.255
    || (0x64400000u32 <= x && x <= 0x647FFFFFu32)   // 100.64.0.0 to 100.127.255.255
    || (0x7F000000u32 <= x && x <= 0x7FFFFFFFu32)   // 127.0.0.0 to 127.255.255.255
    || (0xA9FE0000u32 <= x && x <= 0xA9FEFFFFu32)   // 169.254.0.0 to 169.254.255.255
    || (0xAC100000u32 <= x && x <= 0xAC1FFFFFu32)   // 172.16.0.0 to 172.31.255.255
    || (0xC0000000u32 <= x && x <= 0xC00000FFu32)   // 192.0.0.0 to 192.0.0.255
    || (0xC0000200u32 <= x && x <= 0xC00002FFu32)   // 192.0.2.0 to 192.0.2.255
    || (0xC0586300u32 <= x && x <= 0xC05863FFu32)   // 192.88.99.0 to 192.88.99.255
    || (0xC0A80000u32 <= x && x <= 0xC0A8FFFFu32)   // 192.168.0.0 to 192.168.255.255
    || (0xC6120000u32 <= x && x <= 0xC613FFFFu32)   // 198.18.0.0 to 198.19.255.255
    || (0xC6336400u32 <= x && x <= 0xC63364FFu32)   // 198.51.100.0 to 198.51.100.255
    || (0xCB007100u32 <= x && x <= 0xCB0071FFu32)   // 203.0.113.0 to 203.0.113.255
    || (0xE0000000u32 <= x && x <= 0xFFFFFFFFu32)   // 224.0.0.0 to 255.255.255.255
}
pub open spec fn in_nets(x: u32, v: Seq<Ipv4Network>, n: int) -> bool { exists|i: int| 0 <= i < n && same_net(x, (#[trigger] v[i]).a, v[i].p) }
pub proof fn lemma_nets(x: u32, v: Seq<Ipv4Network>, n: int) requires 0 <= n ensures in_nets(x, v, n + 1) == (in_nets(x, v, n) || same_net(x, v[n].a, v[n].p))
{ if same_net(x, v[n].a, v[n].p) { assert(0 <= n < n + 1 && same_net(x, v[n].a, v[n].p)); } if in_nets(x, v, n) { let i = choose|i: int| 0 <= i < n && same_net(x, (#[trigger] v[i]).a, v[i].p); assert(same_net(x, v[i].a, v[i].p)); } }
//@cidrs crates/symbolicator-service/src/utils/http.rs RESERVED_IP_BLOCKS covers (x <= 0x00FFFFFFu32) || (0x0A000000u32 <= x && x <= 0x0AFFFFFFu32) || (0x64400000u32 <= x && x <= 0x647FFFFFu32) || (0x7F000000u32 <= x && x <= 0x7FFFFFFFu32) || (0xA9FE0000u32 <= x && x <= 0xA9FEFFFFu32) || (0xAC100000u32 <= x && x <= 0xAC1FFFFFu32) || (0xC0000000u32 <= x && x <= 0xC00000FFu32) || (0xC0000200u32 <= x && x <= 0xC00002FFu32) || (0xC0586300u32 <= x && x <= 0xC05863FFu32) || (0xC0A80000u32 <= x && x <= 0xC0A8FFFFu32) || (0xC6120000u32 <= x && x <= 0xC613FFFFu32) || (0xC6336400u32 <= x && x <= 0xC63364FFu32) || (0xCB007100u32 <= x && x <= 0xCB0071FFu32) || (0xE0000000u32 <= x && x <= 0xFFFFFFFFu32)
pub proof fn lemma_reserved(x: u32) requires reserved(x) ensures in_nets(x, RESERVED_IP_BLOCKS_v(), RESERVED_IP_BLOCKS_v().len() as int) { RESERVED_IP_BLOCKS_covers(x); }
pub open spec fn external(ip: IpAddr) -> bool { match ip { IpAddr::V4(a) => !reserved(a.a), IpAddr::V6(_) => false } }
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-service/src/utils/http.rs is_external_ip nloops=1
//@sub std :: net :: IpAddr ==> IpAddr
//@sub & * RESERVED_IP_BLOCKS ==> RESERVED_IP_BLOCKS ( )
//@sub network . contains ( ==> network . vp_contains (
//@ret r
//@start
    proof { match ip { IpAddr::V4(a) => { if reserved(a.a) { lemma_reserved(a.a); } } _ => {} } }
//@spec
    ensures r ==> external(ip)
//@loop 0 iter=it
    invariant ip is V4, forall|i: int| 0 <= i < it.seq().len() ==> 0 < (#[trigger] it.seq()[i]).p <= 32, it.seq() =~= RESERVED_IP_BLOCKS_v(), !in_nets(ip->V4_0.a, it.seq(), it.index@),
//@body 0
    proof { lemma_nets(ip->V4_0.a, it.seq(), it.index@); assert(it.seq()[it.index@].p <= 32); }
//@end

// ---- origins -----------------------------------------------------------------------------------------
/// what the url crate parsed
pub struct UrlParts { pub text: Str, pub scheme: Str, pub host: Option<Str>, pub port: Option<int>, pub path: Str }
#[verifier::external_body] pub struct Url { u: u8 }
impl Url {
    pub uninterp spec fn view(&self) -> UrlParts;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.view().text { unimplemented!() }
    #[verifier::external_body] pub fn scheme(&self) -> (r: &str) ensures r@ == self.view().scheme { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self.view().path { unimplemented!() }
    #[verifier::external_body] pub fn host_str(&self) -> (r: Option<&str>) ensures r is Some == self.view().host is Some, r is Some ==> r->Some_0@ == self.view().host->Some_0 { unimplemented!() }
    /// the port the address names or that the scheme stands for
    #[verifier::external_body] pub fn port_or_known_default(&self) -> (r: Option<u16>) ensures r is Some == self.view().port is Some, r is Some ==> r->Some_0 as int == self.view().port->Some_0 { unimplemented!() }
}
pub uninterp spec fn ascii_domain(s: Str) -> Option<Str>;
pub struct IdnaErrors {}
pub mod idna { use vstd::prelude::*; use vstd::string::*; verus! {
    #[verifier::external_body] pub fn domain_to_ascii(s: &str) -> (r: Result<String, super::IdnaErrors>) ensures r.is_ok() == super::ascii_domain(s@) is Some, r.is_ok() ==> r->Ok_0@ == super::ascii_domain(s@)->Some_0 { unimplemented!() }
} }
pub trait VpSplitStr { fn vp_split_str(&self, p: &str) -> Option<(&str, &str)>; }
/// the first place where p occurs
pub open spec fn first_in(s: Str, p: Str, i: int) -> bool { contains_at(s, p, i) && forall|j: int| 0 <= j < i ==> !contains_at(s, p, j) }
impl VpSplitStr for str {
    #[verifier::external_body]
    fn vp_split_str(&self, p: &str) -> (r: Option<(&str, &str)>)
        ensures r is Some == cut(self@, p@) is Some, r is Some ==> r->Some_0.0@ == cut(self@, p@)->Some_0.0 && r->Some_0.1@ == cut(self@, p@)->Some_0.1 { unimplemented!() }
}
pub trait VpCut { fn vp_cut(&self, c: char) -> Option<(&str, &str)>; }
impl VpCut for str { #[verifier::external_body] fn vp_cut(&self, c: char) -> (r: Option<(&str, &str)>) ensures r is Some == cut_c(self@, c) is Some, r is Some ==> r->Some_0.0@ == cut_c(self@, c)->Some_0.0 && r->Some_0.1@ == cut_c(self@, c)->Some_0.1 { unimplemented!() } }
pub proof fn lemma_wild(s: Str) requires has_prefix(s, "*."@) ensures bound_at(s, 1) == Some(1int)
{ lemma_star(); let p = seq!['*', '.']; assert(s.subrange(0, 2)[0] == p[0]); ax::lemma_off_eq(s, p, 1); ax::lemma_ascii_off(p, 1); ax::ax_off(s, 1); }
// the documented form: [scheme://]host[:port][/path], where a missing scheme or path stands for any
pub struct Pat { pub scheme: Str, pub host: Str, pub port: Option<Str>, pub path: Option<Str> }
pub open spec fn cut(s: Str, p: Str) -> Option<(Str, Str)> { if has_substr(s, p) { let i = choose|i: int| first_in(s, p, i); Some((s.subrange(0, i), s.subrange(i + p.len(), s.len() as int))) } else { None } }
pub open spec fn cut_c(s: Str, c: char) -> Option<(Str, Str)> { if has_char(s, c) { let i = choose|i: int| is_first(s, c, i); Some((s.subrange(0, i), s.subrange(i + 1, s.len() as int))) } else { None } }
pub open spec fn parts(v: Str) -> (Str, Str) { match cut(v, "://"@) { Some(x) => x, None => ("*"@, v) } }
pub open spec fn tail(v: Str) -> (Str, Option<Str>) { match cut_c(v, '/') { Some((a, b)) => (a, Some(b)), None => (v, None) } }
pub open spec fn auth(v: Str) -> (Str, Option<Str>) { match cut_c(v, ':') { Some((a, b)) => (a, Some(b)), None => (v, None) } }
pub open spec fn pattern(v: Str) -> Pat {
    let (scheme, rest) = parts(v); let (a, path) = tail(rest); let (host, port) = auth(a);
    Pat { scheme, host, port, path: if path == Some("*"@) { None } else { path } }
}
/// the name of the host in its ASCII form
pub open spec fn host_of(u: UrlParts) -> Str { match u.host { Some(h) => match ascii_domain(h) { Some(a) => a, None => h }, None => Seq::empty() } }
pub open spec fn domain(p: Pat) -> Option<Str> { match ascii_domain(p.host) { Some(h) => Some(match p.port { Some(n) => h + ":"@ + n, None => h }), None => None } }
/// `*` any host on any port, `*.d` d and its subdomains, `h` that host on any port, `*:n` any host on that port, `h:n` that host on that port
pub open spec fn host_matches(u: UrlParts, d: Str) -> bool {
    if has_prefix(d, "*."@) { has_suffix(host_of(u), d.subrange(1, d.len() as int)) || host_of(u) == d.subrange(2, d.len() as int) }
    else { named(u, d) }
}
pub open spec fn no_slash(s: Str) -> Str { if has_prefix(s, seq!['/']) { s.skip(1) } else { s } }
pub open spec fn no_star(s: Str) -> Str { if has_suffix(s, seq!['*']) { s.drop_last() } else { s } }
pub open spec fn path_matches(u: UrlParts, path: Option<Str>) -> bool { match path { Some(q) => has_prefix(no_slash(u.path), no_star(q)), None => true } }
pub open spec fn pat_allows(u: UrlParts, p: Pat) -> bool {
    (p.scheme == "*"@ || p.scheme == u.scheme) && (domain(p) matches Some(d) && host_matches(u, d)) && path_matches(u, p.path)
}
/// the pattern allows the address
pub open spec fn allows(u: UrlParts, v: Str) -> bool { v == "*"@ || v == u.text || pat_allows(u, pattern(v)) }
pub open spec fn some_allows(u: UrlParts, v: Seq<String>, n: int) -> bool { exists|i: int| 0 <= i < n && allows(u, (#[trigger] v[i])@) }

#[verifier::external_body] pub fn vp_refs(v: &[String]) -> (r: Vec<&String>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> *(#[trigger] r@[k]) == v@[k] { v.iter().collect() }
pub trait VpTexts { spec fn has_text(&self, x: Str) -> bool; fn vp_has(&self, x: &String) -> (r: bool) ensures r == self.has_text(x@); }
impl VpTexts for Vec<String> { open spec fn has_text(&self, x: Str) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x } #[verifier::external_body] fn vp_has(&self, x: &String) -> bool { self.contains(x) } }
pub open spec fn none_is(v: Seq<String>, n: int, x: Str) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] v[k])@ != x }
pub open spec fn same_refs(a: Seq<&String>, v: Seq<String>) -> bool { a.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> *(#[trigger] a[k]) == v[k] }
//@item crates/symbolicator-service/src/utils/http.rs AllowedOriginPattern
/// the names under which a pattern may give the host
pub open spec fn named(u: UrlParts, d: Str) -> bool { d == "*"@ || d == host_of(u) || (u.port matches Some(n) && (d == "*:"@ + dec(n) || d == host_of(u) + ":"@ + dec(n))) }
pub open spec fn names(v: Seq<String>, u: UrlParts) -> bool { (forall|i: int| 0 <= i < v.len() ==> named(u, (#[trigger] v[i])@)) && v.len() >= 2 && v[0]@ == "*"@ && v[1]@ == host_of(u) && (u.port matches Some(n) ==> v.len() >= 4 && v[2]@ == "*:"@ + dec(n) && v[3]@ == host_of(u) + ":"@ + dec(n)) }
pub proof fn lemma_star() ensures "*."@ =~= seq!['*', '.'], "*"@ =~= seq!['*'], ":"@ =~= seq![':'] { reveal_strlit("*."); reveal_strlit("*"); reveal_strlit(":"); }
pub trait VpIs { spec fn txt(&self) -> Str; fn vp_is(&self, o: &str) -> (r: bool) ensures r == (self.txt() == o@); }
impl VpIs for String { open spec fn txt(&self) -> Str { self@ } #[verifier::external_body] fn vp_is(&self, o: &str) -> bool { self == o } }
pub proof fn lemma_some(u: UrlParts, v: Seq<String>, n: int) requires 0 <= n ensures some_allows(u, v, n + 1) == (some_allows(u, v, n) || allows(u, v[n]@))
{ if allows(u, v[n]@) { assert(0 <= n < n + 1 && allows(u, v[n]@)); } if some_allows(u, v, n) { let i = choose|i: int| 0 <= i < n && allows(u, (#[trigger] v[i])@); assert(allows(u, v[i]@)); } }
pub proof fn lemma_wider(u: UrlParts, v: Seq<String>, n: int) requires 0 <= n <= v.len(), some_allows(u, v, n) ensures some_allows(u, v, v.len() as int)
{ let i = choose|i: int| 0 <= i < n && allows(u, (#[trigger] v[i])@); assert(allows(u, v[i]@)); }
impl AllowedOriginPattern {
//@fn crates/symbolicator-service/src/utils/http.rs AllowedOriginPattern::parse
//@sub? split_once ( "://" ) ==> vp_split_str ( "://" )
//@sub? split_once ( '/' ) ==> vp_cut ( '/' )
//@sub? split_once ( ':' ) ==> vp_cut ( ':' )
//@ret r
//@spec
    ensures r is Some == domain(pattern(value@)) is Some,
        r is Some ==> r->Some_0.scheme@ == pattern(value@).scheme && r->Some_0.domain@ == domain(pattern(value@))->Some_0 && (match pattern(value@).path { Some(q) => r->Some_0.path@ == q && q != "*"@, None => r->Some_0.path@ == "*"@ })
//@end
}
//@fn crates/symbolicator-service/src/utils/http.rs is_valid_origin nloops=3 while=2
//@sub? elem == "*" ==> elem . vp_is ( "*" )
//@sub? elem == origin . as_str ( ) ==> elem . vp_is ( origin . as_str ( ) )
//@sub? hostname != rest ==> ! hostname . vp_is ( rest )
//@sub? hostname == rest ==> hostname . vp_is ( rest )
//@sub? scheme != "*" ==> ! scheme . vp_is ( "*" )
//@sub? scheme != origin . scheme ( ) ==> ! scheme . vp_is ( origin . scheme ( ) )
//@sub? path == "*" ==> path . vp_is ( "*" )
//@sub for pattern in allowed ==> for pattern in vp_refs ( allowed )
//@sub? . contains ( & domain ) ==> . vp_has ( & domain )
//@sub? idna :: domain_to_ascii ( host ) . unwrap_or ==> idna :: domain_to_ascii ( host ) . ok ( ) . unwrap_or
//@ret r
//@spec
    ensures r == some_allows(origin.view(), allowed@, allowed@.len() as int)
//@loop 0 iter=it
    invariant same_refs(it.seq(), allowed@), !vp_acc ==> none_is(allowed@, it.index@, "*"@), vp_acc ==> some_allows(origin.view(), allowed@, it.index@)
//@body 0
    proof { lemma_some(origin.view(), allowed@, it.index@); reveal_strlit("*"); }
//@loop 1 iter=it
    invariant same_refs(it.seq(), allowed@), !vp_acc ==> none_is(allowed@, it.index@, origin.view().text), vp_acc ==> some_allows(origin.view(), allowed@, it.index@)
//@body 1
    proof { lemma_some(origin.view(), allowed@, it.index@); }
//@loop 2
    invariant same_refs(vp_v2@, allowed@), 0 <= vp_i2 <= vp_v2@.len(), !some_allows(origin.view(), allowed@, vp_i2 as int),
        none_is(allowed@, allowed@.len() as int, "*"@), none_is(allowed@, allowed@.len() as int, origin.view().text),
        hostname@ == host_of(origin.view()),
        names(domain_matches@, origin.view())
    decreases vp_v2@.len() - vp_i2
//@body 2
    proof { lemma_some(origin.view(), allowed@, vp_i2 as int); if allows(origin.view(), allowed@[vp_i2 as int]@) { lemma_wider(origin.view(), allowed@, vp_i2 + 1); } lemma_star(); assert forall|s: Str| #[trigger] has_prefix(s, "*."@) implies bound_at(s, 1) == Some(1int) && s.len() >= 2 by { lemma_wild(s); } }
//@end

#[derive(Clone, Copy)] pub struct Duration { pub ms: u128 }
impl Duration { #[verifier::external_body] pub fn from_secs(m: u64) -> (r: Duration) { unimplemented!() } }
// ---- clients -----------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/utils/http.rs DownloadTimeouts
#[derive(Clone, Copy)] pub struct ClientS { pub guarded: bool, pub unverified: bool }
#[verifier::external_body] pub struct ClientBuilder { b: u8 }
#[verifier::external_body] pub struct Client { c: u8 }
impl Client { pub uninterp spec fn view(&self) -> ClientS;
    #[verifier::external_body] pub fn get(&self, url: Url) -> (r: RequestBuilder) ensures r.client() == self.view(), r.to() == url.view() { unimplemented!() } }
impl Clone for Client { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.view() == self.view() { unimplemented!() } }
#[derive(Debug)] pub struct RqError {}
impl ClientBuilder {
    pub uninterp spec fn view(&self) -> ClientS;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.view().guarded, !r.view().unverified { unimplemented!() }
    #[verifier::external_body] pub fn gzip(self, b: bool) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn hickory_dns(self, b: bool) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn connect_timeout(self, b: Duration) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn timeout(self, b: Duration) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn pool_idle_timeout(self, b: Duration) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn danger_accept_invalid_certs(self, b: bool) -> (r: Self) ensures r.view() == (ClientS { unverified: b, ..self.view() }) { unimplemented!() }
    #[verifier::external_body] pub fn redirect(self, b: redirect::Policy) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
    /// addresses the filter refuses are not connected to
    #[verifier::external_body] pub fn ip_filter<F: Fn(IpAddr) -> bool>(self, f: F) -> (r: Self)
        requires forall|ip: IpAddr| f.requires((ip,))
        ensures r.view().unverified == self.view().unverified, (forall|ip: IpAddr, b: bool| #[trigger] f.ensures((ip,), b) && b ==> external(ip)) ==> r.view().guarded { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Result<Client, RqError>) ensures r.is_ok(), r->Ok_0.view() == self.view() { unimplemented!() }
}
pub mod reqwest { pub use super::{Client, ClientBuilder}; }
#[derive(PartialEq, Eq, Clone, Copy)] pub struct StatusCode { pub c: u16 }
impl StatusCode { pub const FOUND: StatusCode = StatusCode { c: 302 }; }
pub mod redirect { use vstd::prelude::*; use super::*; verus! {
    #[verifier::external_body] pub struct Policy { p: u8 }
    pub struct Action { p: u8 }
    pub struct Attempt { p: u8 }
    impl Policy { #[verifier::external_body] pub fn custom<F: Fn(Attempt) -> Action>(f: F) -> Policy { unimplemented!() } #[verifier::external_body] pub fn default() -> Policy { unimplemented!() } #[verifier::external_body] pub fn redirect(&self, a: Attempt) -> Action { unimplemented!() } }
    impl Attempt { #[verifier::external_body] pub fn status(&self) -> StatusCode { unimplemented!() } #[verifier::external_body] pub fn previous(&self) -> &[Url] { unimplemented!() } #[verifier::external_body] pub fn stop(self) -> Action { unimplemented!() } }
} }
//@fn crates/symbolicator-service/src/utils/http.rs create_client stub=default
//@ret r
//@spec
    ensures !connect_to_reserved_ips ==> r.view().guarded, !accept_invalid_certs ==> !r.view().unverified
//@end

// a download goes through the client that checks certificates unless the source waives that
#[verifier::external_body] pub struct RequestBuilder { b: u8 }
pub assume_specification [String::as_bytes] (s: &String) -> &[u8];
pub struct HeaderName { pub h: u8 }
pub mod header { pub use super::HeaderName; pub const USER_AGENT: HeaderName = HeaderName { h: 0 }; }
pub const USER_AGENT: &'static str = "";
impl HeaderName { #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> Result<HeaderName, RqError> { unimplemented!() } }
impl RequestBuilder {
    pub uninterp spec fn client(&self) -> ClientS;
    pub uninterp spec fn to(&self) -> UrlParts;
    #[verifier::external_body] pub fn header(self, k: HeaderName, v: &str) -> (r: Self) ensures r.client() == self.client(), r.to() == self.to() { unimplemented!() }
}
pub struct HttpSourceConfig { pub accept_invalid_certs: bool }
pub struct HttpRemoteFile { pub source: HttpSourceConfig, pub headers: Headers, pub at: Ghost<UrlParts> }
pub struct UrlError {}
impl HttpRemoteFile {
    #[verifier::external_body] pub fn url(&self) -> (r: Result<Url, UrlError>) ensures r.is_ok() ==> r->Ok_0.view() == self.at@ { unimplemented!() }
}
#[verifier::external_body] pub struct Headers { h: u8 }
#[verifier::external_body] pub fn vp_headers(f: &HttpRemoteFile) -> Vec<(String, String)> { unimplemented!() }
pub enum CacheError { NotFound, DownloadError(String), Other }
/// the answer to a download; the request that was sent for it
pub struct Sent { pub client: ClientS, pub to: UrlParts }
pub struct CacheContents { pub sent: Ghost<Option<Sent>> }
#[verifier::external_body] pub fn vp_not_found() -> (r: CacheContents) ensures r.sent@ is None { unimplemented!() }
pub struct Dest {}
#[verifier::external_body] pub fn download_reqwest(n: &str, b: RequestBuilder, t: &DownloadTimeouts, d: Dest) -> (r: CacheContents) ensures r.sent@ == Some(Sent { client: b.client(), to: b.to() }) { unimplemented!() }
//@item crates/symbolicator-service/src/download/http.rs HttpDownloader
impl HttpDownloader {
//@fn crates/symbolicator-service/src/download/http.rs HttpDownloader::new
//@ret r
//@spec
    ensures r.client.view() == client.view(), r.no_ssl_client.view() == no_ssl_client.view()
//@end
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-service/src/download/http.rs HttpDownloader::download_source async nloops=1 keep=as_bytes
//@sub impl Destination ==> Dest
//@sub? let download_url = file_source . url ( ) . map_err ( | _ | CacheError :: NotFound ) ? ; ==> let download_url = match file_source . url ( ) { Ok ( u ) => u , Err ( _ ) => return vp_not_found ( ) } ;
//@sub? let headers = file_source . source . headers . iter ( ) . chain ( file_source . headers . iter ( ) ) ; ==> let headers = vp_headers ( file_source ) ;
//@sub? super :: download_reqwest ==> download_reqwest
//@ret r
//@spec
    ensures r.sent@ matches Some(q) ==> q.to == file_source.at@ && (q.client == self.client.view() || file_source.source.accept_invalid_certs && q.client == self.no_ssl_client.view())
//@loop 0 iter=it
    invariant builder.to() == file_source.at@, builder.client() == self.client.view() || file_source.source.accept_invalid_certs && builder.client() == self.no_ssl_client.view()
//@end
}

use std::sync::Arc;
// the clients of the service
pub mod tokio { pub mod runtime { #[derive(Clone, Copy)] pub struct Handle {} } }
pub struct InMemory { pub s3_client_capacity: u64, pub gcs_token_capacity: u64 }
pub struct Caches { pub in_memory: InMemory }
pub struct Config { pub connect_to_reserved_ips: bool, pub propagate_traces: bool, pub deny_list_enabled: bool, pub caches: Caches }
pub struct HostDenyList {}
impl HostDenyList { #[verifier::external_body] pub fn from_config(c: &Config) -> HostDenyList { unimplemented!() } }
#[verifier::external_body] pub fn vp_then_some<T>(b: bool, x: T) -> Option<T> { unimplemented!() }
impl DownloadTimeouts { #[verifier::external_body] pub fn from_config(c: &Config) -> DownloadTimeouts { unimplemented!() } }
impl Clone for DownloadTimeouts { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for DownloadTimeouts {}
pub mod sentry { use vstd::prelude::*; use super::*; verus! { pub struct SentryDownloader { pub client: Client } impl SentryDownloader { #[verifier::external_body] pub fn new(c: Client, h: tokio::runtime::Handle, t: DownloadTimeouts, m: &InMemory, p: bool) -> (r: Self) ensures r.client.view() == c.view() { unimplemented!() } } } }
pub mod http { pub use super::HttpDownloader; }
pub mod s3 { use vstd::prelude::*; use super::*; verus! { pub struct S3Downloader {} impl S3Downloader { #[verifier::external_body] pub fn new(t: DownloadTimeouts, n: u64) -> Self { unimplemented!() } } } }
pub mod gcs { pub use super::GcsDownloader; }
pub mod filesystem { use vstd::prelude::*; verus! { pub struct FilesystemDownloader {} impl FilesystemDownloader { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } } } }
pub struct Tokens {}
impl Tokens { #[verifier::external_body] pub fn of(n: u64) -> Self { unimplemented!() } }
pub struct GcsDownloader { pub token_cache: Tokens, pub client: Client, pub timeouts: DownloadTimeouts }
impl GcsDownloader { #[verifier::external_body] pub fn new(c: Client, t: DownloadTimeouts, n: u64) -> (r: Self) ensures r.client.view() == c.view() { unimplemented!() } }
//@item crates/symbolicator-service/src/download/mod.rs DownloadService
impl DownloadService {
//@fn crates/symbolicator-service/src/download/mod.rs DownloadService::new nocomb keep=clone stub=clone,from_config
//@sub? crate :: utils :: http :: create_client ==> create_client
//@sub? config . deny_list_enabled . then_some ( HostDenyList :: from_config ( config ) ) ==> vp_then_some ( config . deny_list_enabled , HostDenyList :: from_config ( config ) )
//@ret r
//@spec
    ensures r.connect_to_reserved_ips == config.connect_to_reserved_ips,
        !config.connect_to_reserved_ips ==> r.http.client.view().guarded && r.http.no_ssl_client.view().guarded && r.gcs.client.view().guarded,
        !r.http.client.view().unverified && !r.gcs.client.view().unverified && !r.sentry.client.view().unverified && !r.trusted_client.view().unverified
//@end
//@fn crates/symbolicator-service/src/download/mod.rs DownloadService::can_connect_to_reserved_ips
//@ret r
//@spec
    ensures r == self.connect_to_reserved_ips
//@end
}

// ---- scraping of JavaScript sources ------------------------------------------------------------------
pub struct ScrapingConfig { pub enabled: bool, pub verify_ssl: bool, pub allowed_origins: Vec<String>, pub headers: Headers }
/// the scraping configuration of the request
pub uninterp spec fn scraping_on() -> bool;
pub uninterp spec fn origins() -> Seq<String>;
pub uninterp spec fn reserved_on() -> bool;
/// the same address up to the fragment
pub open spec fn same_place(a: UrlParts, b: UrlParts) -> bool { a.scheme == b.scheme && a.host == b.host && a.port == b.port && a.path == b.path }
pub open spec fn may_scrape(u: UrlParts) -> bool {
    scraping_on() && (u.scheme == "http"@ || u.scheme == "https"@) && some_allows(u, origins(), origins().len() as int)
    && (u.host matches Some(h) && (reserved_on() || h != "localhost"@ && h != "127.0.0.1"@))
}
pub open spec fn scrapable(to: UrlParts) -> bool { exists|u: UrlParts| #[trigger] may_scrape(u) && same_place(u, to) }
impl Url {
    #[verifier::external_body] pub fn parse(s: &str) -> Result<Url, UrlParseError> { unimplemented!() }
    #[verifier::external_body] pub fn set_fragment(&mut self, f: Option<&str>) ensures same_place(old(self).view(), final(self).view()), may_scrape(old(self).view()) ==> scrapable(final(self).view()) { unimplemented!() }
}
pub struct UrlParseError {}
impl UrlParseError { #[verifier::external_body] pub fn vp_to_string(&self) -> String { unimplemented!() } }
impl HttpRemoteFile {
    #[verifier::external_body] pub fn from_url(u: Url, verify: bool) -> (r: HttpRemoteFile) ensures r.at@ == u.view(), r.source.accept_invalid_certs == !verify { unimplemented!() }
    #[verifier::external_body] pub fn vp_into(self) -> (r: RemoteFile) ensures r.at@ == self.at@ { unimplemented!() }
}
#[verifier::external_body] pub fn vp_add_headers(h: &mut Headers, o: &Headers) { unimplemented!() }
pub struct RemoteFile { pub at: Ghost<UrlParts> }
pub struct RemoteFileUri {}
impl RemoteFileUri { #[verifier::external_body] pub fn new(s: &str) -> Self { unimplemented!() } }
impl RemoteFile { #[verifier::external_body] pub fn uri(&self) -> RemoteFileUri { unimplemented!() } }
pub enum CachedFileUri { ScrapedFile(RemoteFileUri), Other }
pub enum ResolvedWith { Unknown, Scraping }
pub struct Contents {}
pub struct SourceMapUrl {}
pub struct DebugId {}
pub struct CachedFile { pub contents: Option<Contents>, pub sourcemap_url: Option<Arc<SourceMapUrl>>, pub debug_id: Option<DebugId> }
pub struct CachedFileEntry { pub uri: CachedFileUri, pub entry: Result<CachedFile, CacheError>, pub resolved_with: ResolvedWith }
impl CachedFileEntry { #[verifier::external_body] pub fn empty() -> Self { unimplemented!() } }
pub struct Fetched {}
impl Fetched { #[verifier::external_body] pub fn into_contents(self) -> Result<Contents, CacheError> { unimplemented!() } }
pub struct Scope {}
pub struct SourceFilesCache {}
impl SourceFilesCache { #[verifier::external_body] pub fn fetch_file(&self, s: &Scope, f: RemoteFile, shared: bool) -> (r: Fetched) requires scrapable(f.at@) { unimplemented!() } }
pub struct JsMetrics { pub scraped_files: u64 }
impl JsMetrics { #[verifier::external_body] pub fn record_file_scraped(&mut self, t: u8, d: bool) ensures final(self).scraped_files == old(self).scraped_files { unimplemented!() } }
#[derive(Clone, Copy)] pub enum JsScrapingFailureReason { NotFound, Disabled, InvalidHost, Other }
pub struct JsScrapingResult {}
pub struct JsScrapingAttempt { pub url: String, pub result: JsScrapingResult }
impl JsScrapingAttempt {
    #[verifier::external_body] pub fn failure(u: String, r: JsScrapingFailureReason, d: String) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn success(u: String) -> Self { unimplemented!() }
}
#[verifier::external_body] pub fn vp_result(e: &CacheError) -> JsScrapingResult { unimplemented!() }
#[verifier::external_body] pub fn vp_seconds() -> u64 { unimplemented!() }
#[verifier::external_body] pub fn cache_busting_key(u: &str, t: u64, d: Duration) -> u64 { unimplemented!() }
#[verifier::external_body] pub fn vp_text(n: u64) -> String { unimplemented!() }
#[verifier::external_body] pub fn vp_interval() -> Duration { unimplemented!() }
#[verifier::external_body] pub fn vp_sourcemap_url(c: &Contents, p: &str) -> Option<Arc<SourceMapUrl>> { unimplemented!() }
#[verifier::external_body] pub fn discover_debug_id(c: &Contents) -> Option<DebugId> { unimplemented!() }
#[verifier::external_body] pub fn vp_owned(s: &str) -> String { unimplemented!() }
pub trait VpIn { fn vp_one_of(&self, x: &str) -> bool; }
/// an array of two literals
pub fn vp_among(a: &str, b: &str, x: &str) -> (r: bool) ensures r == (x@ == a@ || x@ == b@) { vp_same(x, a) || vp_same(x, b) }
#[verifier::external_body] pub fn vp_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub struct FileKey {}
impl FileKey {
    #[verifier::external_body] pub fn abs_path(&self) -> Option<&str> { unimplemented!() }
    #[verifier::external_body] pub fn as_type(&self) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn debug_id(&self) -> Option<DebugId> { unimplemented!() }
}
pub struct ArtifactFetcher { pub scraping: ScrapingConfig, pub scraping_attempts: Vec<JsScrapingAttempt>, pub download_svc: Arc<DownloadService>, pub metrics: JsMetrics, pub sourcefiles_cache: SourceFilesCache, pub scope: Scope }
impl ArtifactFetcher {
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::scrape async nocomb stub=abs_path,as_type,debug_id,empty,parse_with_prefix
//@sub? | err | CachedFileEntry { ==> | err : String | -> ( vp_r : CachedFileEntry ) { CachedFileEntry {
//@sub? resolved_with : ResolvedWith :: Unknown , } ; ==> resolved_with : ResolvedWith :: Unknown , } } ;
//@sub? ! [ "http" , "https" ] . contains ( & scheme ) ==> ! vp_among ( "http" , "https" , scheme )
//@sub? Some ( host @ ( "localhost" | "127.0.0.1" ) ) if ==> Some ( host ) if ( vp_same ( host , "localhost" ) || vp_same ( host , "127.0.0.1" ) ) &&
//@sub? SystemTime :: now ( ) . duration_since ( SystemTime :: UNIX_EPOCH ) . unwrap_or_default ( ) . as_secs ( ) ==> vp_seconds ( )
//@sub? cache_busting_key ( url . as_str ( ) , timestamp , SCRAPE_FILES_EVERY ) ==> cache_busting_key ( url . as_str ( ) , timestamp , vp_interval ( ) )
//@sub? & cache_key . to_string ( ) ==> & vp_text ( cache_key )
//@sub? remote_file . headers . extend ( self . scraping . headers . iter ( ) . map ( | ( key , value ) | ( key . clone ( ) , value . clone ( ) ) ) , ) ==> vp_add_headers ( & mut remote_file . headers , & self . scraping . headers )
//@sub? let remote_file : RemoteFile = remote_file . into ( ) ==> let remote_file : RemoteFile = remote_file . vp_into ( )
//@sub? discover_sourcemaps_location ( & contents ) . and_then ( | sm_ref | SourceMapUrl :: parse_with_prefix ( abs_path , sm_ref ) . ok ( ) ) . map ( Arc :: new ) ==> vp_sourcemap_url ( & contents , abs_path )
//@sub? e . clone ( ) . into ( ) ==> vp_result ( & e )
//@spec
    requires old(self).scraping.enabled == scraping_on(), old(self).scraping.allowed_origins@ == origins(), old(self).download_svc.connect_to_reserved_ips == reserved_on(), old(self).metrics.scraped_files < u64::MAX
//@end
}
}
fn main() {}
