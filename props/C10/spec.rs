use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- time: durations and wall times are numbers of nanoseconds; the clock has one reading per call ----
pub type Duration = u128;
pub type SystemTime = u128;
pub uninterp spec fn clock() -> u128;
pub struct SystemTimeError { pub e: u8 }
pub open spec fn since(t: SystemTime) -> u128 { if t <= clock() { (clock() - t) as u128 } else { 0 } }
pub trait VpElapsed { fn vp_elapsed(&self) -> (r: Result<Duration, SystemTimeError>); }
impl VpElapsed for u128 { #[verifier::external_body] fn vp_elapsed(&self) -> (r: Result<Duration, SystemTimeError>) ensures r.is_ok() == (*self <= clock()), r.is_ok() ==> r->Ok_0 == clock() - *self { unimplemented!() } }
pub trait VpSatSub { fn vp_saturating_sub(self, o: u128) -> (r: u128); }
impl VpSatSub for u128 { fn vp_saturating_sub(self, o: u128) -> (r: u128) ensures r == left(self, o) { if o < self { self - o } else { 0 } } }
pub trait VpOr0 { spec fn or0(&self) -> u128; fn vp_or0(self) -> (r: u128) ensures r == self.or0(); }
impl VpOr0 for Result<u128, SystemTimeError> { open spec fn or0(&self) -> u128 { match self { Ok(d) => *d, Err(_) => 0 } } fn vp_or0(self) -> u128 { match self { Ok(d) => d, Err(_) => 0 } } }
impl VpOr0 for Option<u128> { open spec fn or0(&self) -> u128 { match self { Some(d) => *d, None => 0 } } fn vp_or0(self) -> u128 { match self { Some(d) => d, None => 0 } } }
/// the monotonic clock can represent the next hundred years
pub struct Instant { pub t: Ghost<nat> }
pub open spec fn far() -> nat { 100 * 366 * 24 * 3600 * 1_000_000_000 }
pub uninterp spec fn instant_now() -> nat;
pub uninterp spec fn instant_max() -> nat;
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) ensures r.t@ == instant_now(), instant_now() + far() <= instant_max() { unimplemented!() }
    #[verifier::external_body] pub fn vp_checked_add(&self, d: Duration) -> (r: Option<Instant>) ensures r.is_some() == (self.t@ + d <= instant_max()), r.is_some() ==> r.unwrap().t@ == self.t@ + d { unimplemented!() }
    /// panics beyond what it can represent
    #[verifier::external_body] pub fn vp_plus(&self, d: Duration) -> (r: Instant) requires self.t@ + d <= instant_max() ensures r.t@ == self.t@ + d { unimplemented!() }
    #[verifier::external_body] pub fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>) ensures r.is_some() == (o.t@ <= self.t@), r.is_some() ==> r.unwrap() == self.t@ - o.t@ { unimplemented!() }
}

// ---- io and files ------------------------------------------------------------------------------------
pub mod io { use super::*;
    pub enum ErrorKind { NotFound, InvalidData, Other }
    pub struct Error { pub k: Ghost<ErrorKind> }
    pub type Result<T> = core::result::Result<T, Error>;
    impl ErrorKind { #[verifier::external_body] pub fn into(self) -> (r: Error) ensures r.k@ == self { unimplemented!() } }
    impl Error { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k@ { unimplemented!() } }
}
#[verifier::external_body] pub struct Path { p: u8 }
#[verifier::external_body] pub struct ArcStr { s: u8 }
//@item crates/symbolicator-service/src/types.rs Scope
//@isub Arc<str> ==> ArcStr
pub open spec fn is_global(s: Scope) -> bool { s matches Scope::Global }
impl PartialEq for Scope { #[verifier::external_body] fn eq(&self, o: &Scope) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Scope { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Scope) -> bool { match (self, o) { (Scope::Global, Scope::Global) => true, (Scope::Scoped(a), Scope::Scoped(b)) => a == b, _ => false } } }
pub struct Metadata { pub scope: Scope, pub time_created: SystemTime }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ByteView<T> { b: core::marker::PhantomData<T> }
pub struct ByteData { b: u8 }
pub type Bv = ByteView<ByteData>;
//@item crates/symbolicator-service/src/caching/metadata.rs CacheEntry
impl<T> CacheEntry<T> {
//@fn crates/symbolicator-service/src/caching/metadata.rs CacheEntry::contents as=contents
//@ret r
//@spec
    ensures *r == self.contents
//@end
}
/// what is on disk at a path: recorded time, metadata, contents (as read by cache_contents_from_bytes, C11)
pub uninterp spec fn mtime(p: Path) -> SystemTime;
pub uninterp spec fn metadata_at(p: Path) -> Option<Metadata>;
pub uninterp spec fn contents_at(p: Path) -> CacheContents<Bv>;
pub uninterp spec fn bytes_at(p: Path) -> Bv;
pub uninterp spec fn decoded(b: Bv) -> CacheContents<Bv>;
pub proof fn ax_decoded(p: Path) ensures decoded(bytes_at(p)) == contents_at(p) { admit(); }
/// the file cannot be read at all
pub uninterp spec fn unreadable(p: Path) -> bool;
pub struct FsMeta { pub m: Ghost<Path> }
impl FsMeta {
    #[verifier::external_body] pub fn len(&self) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn modified(&self) -> (r: io::Result<SystemTime>) ensures r.is_ok() || unreadable(self.m@), r.is_ok() ==> r->Ok_0 == mtime(self.m@) { unimplemented!() }
}
impl Path { #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<FsMeta>) ensures r.is_ok() || unreadable(*self), r.is_ok() ==> r->Ok_0.m@ == *self { unimplemented!() } }
impl<T> ByteView<T> { #[verifier::external_body] pub fn open(p: &Path) -> (r: io::Result<Bv>) ensures r.is_ok() || unreadable(*p), r.is_ok() ==> r->Ok_0 == bytes_at(*p) { unimplemented!() } }
#[verifier::external_body] pub fn cache_contents_from_bytes(b: Bv) -> (r: CacheContents<Bv>) ensures r == decoded(b) { unimplemented!() }
#[verifier::external_body] pub fn vp_remove_metadata(p: &Path, dry_run: bool) requires !dry_run { unimplemented!() }
/// sets the recorded time to the present
#[verifier::external_body] pub fn vp_touch(p: &Path) -> (r: io::Result<()>) ensures r.is_ok() || unreadable(*p) { unimplemented!() }

// ---- configuration -----------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/config.rs DownloadedCacheConfig derive=Clone,Copy
//@item crates/symbolicator-service/src/config.rs DerivedCacheConfig derive=Clone,Copy
//@item crates/symbolicator-service/src/config.rs IndexCacheConfig derive=Clone,Copy
//@item crates/symbolicator-service/src/config.rs DiagnosticsCacheConfig derive=Clone,Copy
//@item crates/symbolicator-service/src/config.rs CacheConfig derive=Clone,Copy
pub open spec fn c_idle(c: CacheConfig) -> Option<Duration> { match c { CacheConfig::Downloaded(x) => x.max_unused_for, CacheConfig::Derived(x) => x.max_unused_for, CacheConfig::Index(x) => x.max_unused_for, CacheConfig::Diagnostics(x) => x.retention } }
pub open spec fn c_miss(c: CacheConfig) -> Option<Duration> { match c { CacheConfig::Downloaded(x) => x.retry_misses_after, CacheConfig::Derived(x) => x.retry_misses_after, CacheConfig::Index(x) => x.retry_misses_after, CacheConfig::Diagnostics(x) => None } }
pub open spec fn c_public(c: CacheConfig) -> Option<Duration> { match c { CacheConfig::Downloaded(x) => x.retry_misses_after_public, CacheConfig::Derived(x) => x.retry_misses_after_public, CacheConfig::Index(x) => x.retry_misses_after_public, CacheConfig::Diagnostics(x) => None } }
pub open spec fn c_malformed(c: CacheConfig) -> Option<Duration> { match c { CacheConfig::Downloaded(x) => x.retry_malformed_after, CacheConfig::Derived(x) => x.retry_malformed_after, CacheConfig::Index(x) => x.retry_malformed_after, CacheConfig::Diagnostics(x) => None } }
impl CacheConfig {
//@fn crates/symbolicator-service/src/config.rs CacheConfig::max_unused_for
//@ret r
//@spec
    ensures r == c_idle(*self)
//@end
//@fn crates/symbolicator-service/src/config.rs CacheConfig::retry_misses_after
//@ret r
//@spec
    ensures r == c_miss(*self)
//@end
//@fn crates/symbolicator-service/src/config.rs CacheConfig::retry_misses_after_public
//@ret r
//@spec
    ensures r == c_public(*self)
//@end
//@fn crates/symbolicator-service/src/config.rs CacheConfig::retry_malformed_after
//@ret r
//@spec
    ensures r == c_malformed(*self)
//@end
}

// ---- the property ------------------------------------------------------------------------------------
pub open spec fn never(o: Option<Duration>) -> Duration { match o { Some(d) => d, None => u128::MAX } }
pub open spec fn miss_period(c: CacheConfig, public: bool) -> Duration { if public { never(c_public(c)) } else { never(c_miss(c)) } }
pub open spec fn hour() -> Duration { 3_600_000_000_000 }
pub open spec fn left(period: Duration, gone: Duration) -> Duration { if gone < period { (period - gone) as u128 } else { 0 } }
/// still usable: used within the idle period / before the retry period since it was written has passed / and written by this process
pub open spec fn usable<T>(c: Cache, e: CacheContents<T>, used: SystemTime, written: SystemTime, public: bool) -> bool {
    match e {
        Ok(_) => since(used) <= never(c_idle(c.cache_config)),
        Err(CacheError::Malformed(_)) => written >= c.start_time && since(written) < never(c_malformed(c.cache_config)),
        Err(_) => since(written) < miss_period(c.cache_config, public),
    }
}
/// when it is to be looked at again
pub open spec fn next<T>(c: Cache, e: CacheContents<T>, used: SystemTime, written: SystemTime, public: bool) -> ExpirationTime {
    match e {
        Ok(_) => ExpirationTime::TouchIn(left(hour(), since(used))),
        Err(CacheError::Malformed(_)) => ExpirationTime::RefreshIn(left(never(c_malformed(c.cache_config)), since(written))),
        Err(_) => ExpirationTime::RefreshIn(left(miss_period(c.cache_config, public), since(written))),
    }
}
pub open spec fn public_meta(m: Option<Metadata>) -> bool { m is Some && is_global(m.unwrap().scope) }
pub open spec fn written_at(p: Path) -> SystemTime { match metadata_at(p) { Some(m) => m.time_created, None => mtime(p) } }
pub open spec fn usable_at(c: Cache, p: Path) -> bool { usable(c, contents_at(p), mtime(p), written_at(p), public_meta(metadata_at(p))) }
pub open spec fn next_at(c: Cache, p: Path) -> ExpirationTime { next(c, contents_at(p), mtime(p), written_at(p), public_meta(metadata_at(p))) }

//@item crates/symbolicator-service/src/caching/fs.rs TOUCH_EVERY
//@isub Duration::from_secs( ==> 1_000_000_000u128 * (
//@item crates/symbolicator-service/src/caching/fs.rs FAR_FUTURE
//@isub Duration::from_secs( ==> 1_000_000_000u128 * (
//@item crates/symbolicator-service/src/caching/fs.rs ExpirationStrategy
//@item crates/symbolicator-service/src/caching/fs.rs ExpirationTime
pub struct Cache { pub start_time: SystemTime, pub cache_config: CacheConfig }
//@fn crates/symbolicator-service/src/caching/fs.rs expiration_strategy
//@ret r
//@spec
    ensures r == (match *status { Ok(_) => ExpirationStrategy::None, Err(CacheError::Malformed(_)) => ExpirationStrategy::Malformed, Err(_) => ExpirationStrategy::Negative })
//@end
impl Cache {
    #[verifier::external_body] pub fn read_metadata(&self, p: &Path) -> (r: io::Result<Option<Metadata>>) ensures r.is_ok() ==> r->Ok_0 == metadata_at(*p), r.is_err() ==> metadata_at(*p) is None { unimplemented!() }
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::compute_expiration_time
//@sub? . unwrap_or_default ( ) ==> . vp_or0 ( )
//@sub? Duration :: ZERO ==> 0
//@sub? Duration :: MAX ==> u128 :: MAX
//@ret r
//@spec
    ensures r.is_ok() == usable(*self, *contents, atime, ctime, is_public),
        r.is_ok() ==> r->Ok_0 == next(*self, *contents, atime, ctime, is_public),
        r.is_err() ==> r->Err_0.k@ is NotFound
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::check_expiry stub=read_metadata,metadata_path
//@sub? ByteView < 'static > ==> Bv
//@sub? ByteView :: open ==> ByteView :: < ByteData > :: open
//@sub? let _ = std :: fs :: remove_file ( metadata_path ( path ) ) ; ==> vp_remove_metadata ( path , dry_run ) ;
//@ret r
//@start
    proof { ax_decoded(*path); }
//@spec
    ensures !unreadable(*path) ==> (r.is_ok() <==> usable_at(*self, *path)),
        r.is_ok() ==> usable_at(*self, *path) && r->Ok_0.0.contents == contents_at(*path) && r->Ok_0.0.metadata == metadata_at(*path) && r->Ok_0.1 == next_at(*self, *path)
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs Cache::open_cachefile
//@sub? ByteView < 'static > ==> Bv
//@sub io :: Result < Option < ( CacheEntry < Bv > , ExpirationTime ) > > ==> io :: Result < ( CacheEntry < Bv > , ExpirationTime ) >
//@sub catch_not_found ( || { ==> ( {
//@sub? Duration :: ZERO ==> 0
//@sub? filetime :: set_file_mtime ( path , FileTime :: now ( ) ) ==> vp_touch ( path )
//@ret r
//@spec
    ensures !unreadable(*path) ==> (r.is_ok() <==> usable_at(*self, *path)),
        r.is_ok() ==> usable_at(*self, *path) && r->Ok_0.0.contents == contents_at(*path) && r->Ok_0.0.metadata == metadata_at(*path)
            && r->Ok_0.1 == (if next_at(*self, *path) == ExpirationTime::TouchIn(0) { ExpirationTime::TouchIn(hour()) } else { next_at(*self, *path) })
//@end
}
impl ExpirationTime {
//@fn crates/symbolicator-service/src/caching/fs.rs ExpirationTime::for_fresh_status
//@sub? Duration :: from_secs ( ==> 1_000_000_000u128 * (
//@sub? Duration :: MAX ==> u128 :: MAX
//@ret r
//@spec
    ensures r == (match entry.contents { Ok(_) => ExpirationTime::TouchIn(hour()), Err(CacheError::Malformed(_)) => ExpirationTime::RefreshIn(never(c_malformed(cache.cache_config))), Err(_) => ExpirationTime::RefreshIn(miss_period(cache.cache_config, public_meta(entry.metadata))) })
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs ExpirationTime::was_touched
//@ret r
//@spec
    ensures r == (*self == ExpirationTime::TouchIn(hour()))
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs ExpirationTime::as_instant
//@sub? now + FAR_FUTURE ==> now . vp_plus ( FAR_FUTURE )
//@sub? Instant :: now ( ) + * duration ==> Instant :: now ( ) . vp_plus ( * duration )
//@ret r
//@spec
    ensures ({ let d = match *self { ExpirationTime::RefreshIn(d) => d, ExpirationTime::TouchIn(d) => d };
        // never late; early only if the time is further away than the clock can represent
        &&& (r.t@ <= instant_now() + d || d > far()) &&& (d <= far() ==> r.t@ == instant_now() + d) &&& r.t@ <= instant_max() })
//@end
}
//@fn crates/symbolicator-service/src/caching/memory.rs saturating_duration_since
//@sub? . unwrap_or_default ( ) ==> . vp_or0 ( )
//@ret r
//@spec
    ensures r is Some, r.unwrap() == (if current_time.t@ <= target_time.t@ { target_time.t@ - current_time.t@ } else { 0 })
//@end
//@fn crates/symbolicator-service/src/caching/fs.rs catch_not_found
//@ret r
//@spec
    requires f.requires(())
    ensures exists|x: io::Result<R>| #[trigger] f.ensures((), x) && (match x { Ok(y) => r == Ok::<Option<R>, io::Error>(Some(y)), Err(e) => if e.k@ is NotFound { r == Ok::<Option<R>, io::Error>(None) } else { r == Err::<Option<R>, io::Error>(e) } })
//@end
}
fn main() {}
