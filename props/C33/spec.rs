use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- what a refresh is about ------------------------------------------------------------------------
#[verifier::external_body] pub struct CacheKey { k: u8 }
#[verifier::external_body] pub struct Hub { h: u8 }
pub struct Duration { pub d: u8 }
pub struct Instant { pub t: u8 }
pub struct CacheVersion { pub number: u32 }
impl PartialEq for CacheVersion { #[verifier::external_body] fn eq(&self, o: &CacheVersion) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CacheVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CacheVersion) -> bool { self.number == o.number } }
impl CacheVersion { #[verifier::external_body] pub fn vp_copied(&self) -> (r: CacheVersion) ensures r == *self { unimplemented!() } }
impl Clone for CacheVersion { #[verifier::external_body] fn clone(&self) -> (r: CacheVersion) ensures r == *self { unimplemented!() } }
impl Copy for CacheVersion {}
pub struct CacheVersions { pub current: CacheVersion, pub fallbacks: Vec<CacheVersion> }
impl CacheKey { pub uninterp spec fn at(&self, v: CacheVersion) -> Str;
    #[verifier::external_body] pub fn clone(&self) -> (r: CacheKey) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn cache_path(&self, v: CacheVersion) -> (r: String) ensures r@ == self.at(v) { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] pub struct ByteView { b: u8 }
#[verifier::external_body] pub struct Metadata { m: u8 }
impl Metadata { #[verifier::external_body] pub fn from_key(k: &CacheKey) -> Metadata { unimplemented!() } }
//@item crates/symbolicator-service/src/caching/metadata.rs CacheEntry
//@item crates/symbolicator-service/src/caching/memory.rs InMemoryItem
//@item crates/symbolicator-service/src/caching/shared_cache/mod.rs CacheStoreReason
pub trait CacheItemRequest: Sized { type Item;
    fn clone(&self) -> (r: Self) ensures r == *self;
    spec fn vs() -> CacheVersions;
    fn versions() -> (r: CacheVersions) ensures r == Self::vs();
    spec fn loaded(&self, b: ByteView) -> CacheContents<Self::Item>;
    fn load(&self, b: ByteView) -> (r: CacheContents<Self::Item>) ensures r == self.loaded(b);
}
impl InMemoryItem<ByteView> { #[verifier::external_body] pub fn vp_and_load<T: CacheItemRequest>(self, q: &T) -> InMemoryItem<T::Item> { unimplemented!() } }
/// how long fresh contents are kept in memory (C10)
pub struct ExpirationTime { pub e: u8 }
pub uninterp spec fn kept_until<T>(c: Cache, e: CacheEntry<T>) -> Instant;
impl ExpirationTime { pub uninterp spec fn at(&self) -> Instant;
    #[verifier::external_body] pub fn for_fresh_status<T>(c: &Cache, e: &CacheEntry<T>) -> (r: ExpirationTime) ensures r.at() == kept_until(*c, *e) { unimplemented!() }
    #[verifier::external_body] pub fn as_instant(&self) -> (r: Instant) ensures r == self.at() { unimplemented!() } }

// ---- the places and the keys ------------------------------------------------------------------------
/// what one caller does to the places of a group of caches, to the keys in refresh, to the tasks of the runtime and
/// to the items in memory. The number in the counter is the limit less all places held, by anybody.
#[verifier::reject_recursive_types(T)]
pub struct World<T: CacheItemRequest> {
    pub places: Ghost<int>,                 // places this caller holds (negative: it gave back more than it took)
    pub free: Ghost<bool>,                  // the last place it took was a free one
    pub busy: Ghost<bool>,                  // it found its key in refresh
    pub mine: Ghost<Set<CacheKey>>,         // keys this caller has entered
    pub seen: Ghost<Option<Set<CacheKey>>>, // the keys in refresh, for as long as the guard is held
    pub started: Ghost<Seq<(T, CacheKey)>>, // tasks it started
    pub stored: Ghost<Seq<(CacheKey, InMemoryItem<T::Item>)>>,
}
/// where a caller begins: it holds no guard and has not looked yet
pub open spec fn fresh<T: CacheItemRequest>(w: World<T>) -> bool { w.seen@ is None && !w.busy@ && w.free@ && w.mine@ =~= Set::<CacheKey>::empty() }
pub open spec fn same<T: CacheItemRequest>(a: World<T>, b: World<T>) -> bool { a.places == b.places && a.mine@ =~= b.mine@ && a.started == b.started && a.stored == b.stored }
pub enum Ordering { Relaxed, SeqCst, Acquire, Release, AcqRel }
#[verifier::external_body] pub struct Counter { a: u8 }
impl Counter {
    #[verifier::external_body] pub fn vp_sub<T: CacheItemRequest>(&self, w: &mut World<T>, n: isize, o: Ordering) -> (r: isize)
        ensures final(w).places@ == old(w).places@ + n, final(w).free@ == (r >= n), final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).seen == old(w).seen, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
    #[verifier::external_body] pub fn vp_add<T: CacheItemRequest>(&self, w: &mut World<T>, n: isize, o: Ordering) -> (r: isize)
        ensures final(w).places@ == old(w).places@ - n, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).seen == old(w).seen, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
}
#[verifier::external_body] pub struct Refreshes { r: u8 }
#[verifier::external_body] pub struct Arc { a: u8 }
/// clones of a shared value are the same value
impl Arc { #[verifier::external_body] pub fn clone<X>(r: &X) -> (s: X) ensures s == *r { unimplemented!() } }
#[verifier::external_body] pub struct Guard { g: u8 }
pub struct Locked { pub g: Guard }
impl Locked { #[verifier::external_body] pub fn unwrap(self) -> Guard { unimplemented!() } }
impl Refreshes {
    /// whoever comes by the lock finds what others left
    #[verifier::external_body] pub fn vp_lock<T: CacheItemRequest>(&self, w: &mut World<T>) -> Locked
        ensures final(w).seen@ is Some, final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
}
impl Guard {
    #[verifier::external_body] pub fn vp_contains<T: CacheItemRequest>(&self, w: &mut World<T>, k: &CacheKey) -> (r: bool)
        requires old(w).seen@ is Some
        ensures r == old(w).seen@->0.contains(*k), final(w).busy@ == r, final(w).places == old(w).places, final(w).free == old(w).free, final(w).mine == old(w).mine, final(w).seen == old(w).seen, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
    /// a key is entered once
    #[verifier::external_body] pub fn vp_insert<T: CacheItemRequest>(&mut self, w: &mut World<T>, k: CacheKey) -> (r: bool)
        requires old(w).seen@ is Some
        ensures r == !old(w).seen@->0.contains(k), final(w).seen@ == Some(old(w).seen@->0.insert(k)), final(w).mine@ == (if r { old(w).mine@.insert(k) } else { old(w).mine@ }),
            final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy@ == (old(w).busy@ || !r), final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
    #[verifier::external_body] pub fn vp_remove<T: CacheItemRequest>(&mut self, w: &mut World<T>, k: &CacheKey) -> (r: bool)
        requires old(w).seen@ is Some
        ensures final(w).mine@ == old(w).mine@.remove(*k), final(w).seen@ == Some(old(w).seen@->0.remove(*k)), final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
}
#[verifier::external_body] pub fn vp_drop<T: CacheItemRequest>(g: Guard, w: &mut World<T>)
    ensures final(w).seen@ is None, final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).started == old(w).started, final(w).stored == old(w).stored { unimplemented!() }
/// what runs when the task ends, however it ends: it gives back exactly one place and frees the key
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct CallOnDrop<T> { p: core::marker::PhantomData<T> }
impl<T: CacheItemRequest> CallOnDrop<T> {
    pub uninterp spec fn of(&self) -> CacheKey;
    #[verifier::external_body] pub fn vp_new<F: FnOnce(&mut World<T>)>(k: Ghost<CacheKey>, f: F) -> (r: CallOnDrop<T>)
        requires forall|w: &mut World<T>| #[trigger] f.requires((w,)),
            forall|w: &mut World<T>| #[trigger] f.ensures((w,), ()) ==> final(w).places@ == w.places@ - 1 && final(w).mine@ == w.mine@.remove(k@) && final(w).started == w.started && final(w).stored == w.stored
        ensures r.of() == k@ { unimplemented!() }
}
/// a task is started: it owns the token, and the place and the key stay with it until it ends
#[verifier::external_body] pub fn vp_task<T: CacheItemRequest>(w: &mut World<T>, d: CallOnDrop<T>, q: &T, k: &CacheKey)
    requires d.of() == *k, old(w).seen@ is None
    ensures final(w).started@ == old(w).started@.push((*q, *k)), final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).seen == old(w).seen, final(w).stored == old(w).stored { unimplemented!() }

// ---- the caches -------------------------------------------------------------------------------------
#[verifier::external_body] pub struct Cache { c: u8 }
#[verifier::external_body] pub struct Path { p: u8 }
pub uninterp spec fn on_disk(c: Cache, at: Str) -> Result<(InMemoryItem<ByteView>, bool), CacheError>;
impl Cache {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn max_lazy_refreshes(&self) -> Counter { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> &'static str { unimplemented!() }
    pub uninterp spec fn has_dir(&self) -> bool;
    #[verifier::external_body] pub fn cache_dir(&self) -> (r: Option<&Path>) ensures r.is_some() == self.has_dir() { unimplemented!() }
}
#[verifier::external_body] pub fn lookup_local_cache(config: &Cache, dir: &Path, at: &String) -> (r: Result<(InMemoryItem<ByteView>, bool), CacheError>) ensures r == on_disk(*config, at@) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Memory<T: CacheItemRequest> { p: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Shared { s: u8 }
impl<T: CacheItemRequest> Memory<T> {
    /// moka: a clone is the same cache
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vp_insert(&self, w: &mut World<T>, k: CacheKey, v: InMemoryItem<T::Item>)
        ensures final(w).stored@ == old(w).stored@.push((k, v)), final(w).started == old(w).started, final(w).places == old(w).places, final(w).free == old(w).free, final(w).busy == old(w).busy, final(w).mine == old(w).mine, final(w).seen == old(w).seen { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] pub struct Cacher<T: CacheItemRequest> { pub config: Cache, pub cache: Memory<T>, pub refreshes: Refreshes, pub shared_cache: Shared }
/// what a computation of the request for the key ended with (C11)
pub uninterp spec fn computed<T: CacheItemRequest>(q: T, k: CacheKey, e: CacheEntry<T::Item>) -> bool;
/// the outcome of asking for a refresh: nothing, as the key is in refresh or no place is free; or exactly one task,
/// which holds one place and the key, and puts what it computed for this request under this key
pub open spec fn refreshed<T: CacheItemRequest>(c: Cacher<T>, q: T, k: CacheKey, a: World<T>, b: World<T>) -> bool {
    same(a, b) && (b.busy@ || !b.free@) || {
        &&& !b.busy@ && b.free@ && b.places@ == a.places@ + 1 && b.mine@ =~= a.mine@.insert(k) && b.started@ == a.started@.push((q, k))
        &&& b.stored@.len() == a.stored@.len() + 1 && b.stored@.drop_last() == a.stored@ && b.stored@.last().0 == k && computed(q, k, b.stored@.last().1.data)
            && b.stored@.last().1.deadline == kept_until(c.config, b.stored@.last().1.data) }
}
#[verifier::external_body] pub fn vp_copy(o: &Vec<CacheVersion>) -> (r: Vec<CacheVersion>) ensures r@ == o@ { unimplemented!() }
pub struct VpOnce { pub v: CacheVersion }
pub fn vp_once(v: CacheVersion) -> (r: VpOnce) ensures r.v == v { VpOnce { v } }
impl VpOnce { #[verifier::external_body] pub fn chain(self, o: Vec<CacheVersion>) -> (r: Vec<CacheVersion>) ensures r@ == seq![self.v] + o@ { unimplemented!() } }
pub open spec fn order(c: CacheVersions) -> Seq<CacheVersion> { seq![c.current] + c.fallbacks@ }
pub open spec fn missing(c: Cache, k: CacheKey, v: CacheVersion) -> bool { on_disk(c, k.at(v)) == Err::<(InMemoryItem<ByteView>, bool), CacheError>(CacheError::NotFound) }
impl<T: CacheItemRequest> Cacher<T> {
//@fn crates/symbolicator-service/src/caching/memory.rs <Clone for Cacher>::clone as=clone stub=clone
//@ret r
//@spec
    ensures r == *self
//@end
    #[verifier::external_body] fn compute(&self, q: T, k: &CacheKey, is_refresh: bool) -> (r: CacheEntry<T::Item>) ensures computed(q, *k, r) { unimplemented!() }
    #[verifier::external_body] fn store_in_shared_cache(&self, q: &T, k: &CacheKey, e: &CacheEntry<ByteView>, r: CacheStoreReason) { unimplemented!() }
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::spawn_refresh async nocomb stub=new,compute,clone,name,max_lazy_refreshes,for_fresh_status,as_instant
//@drop? sentry ::
//@drop? tracing ::
//@sub & self , request : T ==> & self , vp_w : & mut World < T > , request : T
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub . lock ( ) ==> . vp_lock ( vp_w )
//@sub . fetch_sub ( ==> . vp_sub ( vp_w ,
//@sub . fetch_add ( ==> . vp_add ( vp_w ,
//@sub? . contains ( ==> . vp_contains ( vp_w ,
//@sub . remove ( ==> . vp_remove ( vp_w ,
//@sub refreshes . insert ( ==> refreshes . vp_insert ( vp_w ,
//@sub cache . insert ( ==> cache . vp_insert ( vp_w ,
//@sub drop ( refreshes ) ==> vp_drop ( refreshes , vp_w )
//@sub CallOnDrop :: new ( move || { ==> CallOnDrop :: < T > :: vp_new ( Ghost ( cache_key ) , move | vp_w : & mut World < T > | ensures final ( vp_w ) . places @ == old ( vp_w ) . places @ - 1 , final ( vp_w ) . mine @ == old ( vp_w ) . mine @ . remove ( cache_key ) , final ( vp_w ) . started == old ( vp_w ) . started , final ( vp_w ) . stored == old ( vp_w ) . stored {
//@sub let task = async move { ==> let task = {
//@sub let _done_token = done_token ; ==> vp_task ( vp_w , done_token , & request , & cache_key ) ;
//@sub? let span = sentry :: configure_scope ( | scope | scope . get_span ( ) ) ; ==>
//@sub? let ctx = sentry :: TransactionContext :: continue_from_span ( "Lazy Cache Computation" , "spawn_computation" , span , ) ; ==>
//@sub? let transaction = sentry :: start_transaction ( ctx ) ; ==>
//@sub? transaction . finish ( ) ; ==>
//@sub tokio :: spawn ( task . bind_hub ( Hub :: new_from_top ( Hub :: current ( ) ) ) ) ; ==>
//@ret r
//@spec
    requires fresh(*old(vp_w))
    ensures refreshed(*self, request, cache_key, *old(vp_w), *final(vp_w))
//@finish
    proof { if vp_w.stored@.len() > 0 { assert(vp_w.stored@.drop_last() =~= old(vp_w).stored@); } }
//@end
//@fn crates/symbolicator-service/src/caching/memory.rs Cacher::lookup_local_cache as=lookup nocomb stub=clone,load,and_then,name,cache_dir,store_in_shared_cache,for_fresh_status,as_instant,from_key,cache_path while=0
//@sub & self , request : T ==> & self , vp_w : & mut World < T > , request : T
//@sub . spawn_refresh ( ==> . spawn_refresh ( vp_w ,
//@sub? T :: VERSIONS ==> T :: versions ( )
//@sub? std :: iter :: once ( ==> vp_once (
//@sub? . fallbacks . iter ( ) . copied ( ) ==> . fallbacks
//@sub? item . and_then ( | byteview | request . load ( byteview ) ) ==> item . vp_and_load ( & request )
//@ret r
//@spec
    requires fresh(*old(vp_w))
    // at most one refresh, of the same item; none when the current version was found, or nothing
    ensures same(*old(vp_w), *final(vp_w)) || refreshed(*self, request, *cache_key, *old(vp_w), *final(vp_w)),
        r is None || !missing(self.config, *cache_key, order(T::vs())[0]) ==> same(*old(vp_w), *final(vp_w)),
        // an outdated item that is served was asked to be refreshed
        r is Some && missing(self.config, *cache_key, order(T::vs())[0]) && (exists|k: int| 0 < k < order(T::vs()).len() && order(T::vs())[k].number != T::vs().current.number && #[trigger] on_disk(self.config, cache_key.at(order(T::vs())[k])) is Ok && forall|j: int| 0 <= j < k ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[j]))
            ==> refreshed(*self, request, *cache_key, *old(vp_w), *final(vp_w))
//@loop 0
    invariant *vp_w == *old(vp_w), fresh(*old(vp_w)), self.config.has_dir(), vp_v0@ == order(T::vs()), vp_i0 <= vp_v0@.len(), forall|j: int| 0 <= j < vp_i0 ==> missing(self.config, *cache_key, #[trigger] order(T::vs())[j])
    decreases vp_v0@.len() - vp_i0
//@end
}
}
fn main() {}
