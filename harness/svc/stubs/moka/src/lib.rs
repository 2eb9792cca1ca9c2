//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
//! Unbounded, with the expiry rules of the real cache, on the clock of `vpclock`.
use std::{borrow::Borrow, collections::HashMap, hash::Hash, sync::{Arc, Mutex}, time::{Duration, Instant}};
pub trait Expiry<K, V>: Send + Sync { fn expire_after_create(&self, _: &K, _: &V, _: Instant) -> Option<Duration> { None } fn expire_after_read(&self, _: &K, _: &V, _: Instant, d: Option<Duration>, _: Instant) -> Option<Duration> { d } fn expire_after_update(&self, _: &K, _: &V, _: Instant, d: Option<Duration>) -> Option<Duration> { d } }
pub mod notification { #[derive(Clone, Copy, Debug)] pub enum RemovalCause { Expired, Explicit, Replaced, Size } }
struct Item<V> { v: V, at: Instant, used: Instant, deadline: Option<Instant> }
struct Opts<K, V> { ttl: Option<Duration>, tti: Option<Duration>, exp: Option<Arc<dyn Expiry<K, V>>>, weigher: Option<Arc<dyn Fn(&K, &V) -> u32 + Send + Sync>> }
impl<K, V> Clone for Opts<K, V> { fn clone(&self) -> Self { Opts { ttl: self.ttl, tti: self.tti, exp: self.exp.clone(), weigher: self.weigher.clone() } } }
struct Store<K, V> { m: Mutex<HashMap<K, Item<V>>>, o: Opts<K, V> }
impl<K: Hash + Eq + Clone, V: Clone> Store<K, V> {
    fn live(&self, i: &Item<V>, now: Instant) -> bool { !(self.o.ttl.is_some_and(|d| i.at + d <= now) || self.o.tti.is_some_and(|d| i.used + d <= now) || i.deadline.is_some_and(|d| d <= now)) }
    fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { let now = vpclock::instant(); let mut m = self.m.lock().unwrap(); match m.get_mut(k) { Some(i) if self.live(i, now) => { i.used = now; Some(i.v.clone()) } Some(_) => { m.remove(k); None } None => None } }
    fn put(&self, k: K, v: V) { let now = vpclock::instant(); let mut m = self.m.lock().unwrap(); let old = m.get(&k).filter(|i| self.live(i, now)).map(|i| i.deadline.map(|d| d.saturating_duration_since(now))); let d = self.o.exp.as_ref().and_then(|e| match old { Some(cur) => e.expire_after_update(&k, &v, now, cur), None => e.expire_after_create(&k, &v, now) }); m.insert(k, Item { v, at: now, used: now, deadline: d.and_then(|d| now.checked_add(d)) }); }
}
macro_rules! builder { () => {
    pub struct CacheBuilder<K, V>(Opts<K, V>);
    impl<K: Hash + Eq + Clone, V: Clone> CacheBuilder<K, V> { pub fn max_capacity(self, _: u64) -> Self { self } pub fn initial_capacity(self, _: usize) -> Self { self } pub fn name(self, _: &str) -> Self { self } pub fn time_to_live(mut self, d: Duration) -> Self { self.0.ttl = Some(d); self } pub fn time_to_idle(mut self, d: Duration) -> Self { self.0.tti = Some(d); self } pub fn expire_after(mut self, e: impl Expiry<K, V> + 'static) -> Self { self.0.exp = Some(Arc::new(e)); self } pub fn weigher(mut self, w: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self { self.0.weigher = Some(Arc::new(w)); self } pub fn eviction_listener<F>(self, _: F) -> Self where F: Fn(Arc<K>, V, notification::RemovalCause) + Send + Sync + 'static { self } pub fn support_invalidation_closures(self) -> Self { self } pub fn build(self) -> Cache<K, V> { Cache(Arc::new(Inner { s: Store { m: Default::default(), o: self.0 }, locks: Default::default() })) } }
    pub struct Cache<K, V>(Arc<Inner<K, V>>);
    impl<K, V> Clone for Cache<K, V> { fn clone(&self) -> Self { Cache(self.0.clone()) } }
    impl<K, V> std::fmt::Debug for Cache<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Cache") } }
    pub struct Entry<K, V> { k: K, v: V, fresh: bool }
    impl<K, V> Entry<K, V> { pub fn key(&self) -> &K { &self.k } pub fn value(&self) -> &V { &self.v } pub fn into_value(self) -> V { self.v } pub fn is_fresh(&self) -> bool { self.fresh } pub fn is_old_value_replaced(&self) -> bool { false } }
    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> { pub fn new(_: u64) -> Self { Self::builder().build() } pub fn builder() -> CacheBuilder<K, V> { CacheBuilder(Opts { ttl: None, tti: None, exp: None, weigher: None }) } pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { let now = vpclock::instant(); self.0.s.m.lock().unwrap().get(k).is_some_and(|i| self.0.s.live(i, now)) } pub fn entry_count(&self) -> u64 { self.0.s.m.lock().unwrap().len() as u64 } pub fn weighted_size(&self) -> u64 { self.0.s.m.lock().unwrap().iter().map(|(k, v)| self.0.s.o.weigher.as_ref().map_or(1, |w| w(k, &v.v) as u64)).sum() } }
} }
pub mod sync { use super::*; builder!();
    struct Inner<K, V> { s: Store<K, V>, #[allow(dead_code)] locks: () }
    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> { pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.s.get(k) } pub fn insert(&self, k: K, v: V) { self.0.s.put(k, v) } pub fn invalidate<Q: ?Sized + Hash + Eq>(&self, k: &Q) where K: Borrow<Q> { self.0.s.m.lock().unwrap().remove(k); } pub fn entry_by_ref<'a, Q: ?Sized + Hash + Eq + ToOwned<Owned = K>>(&'a self, k: &'a Q) -> Sel<'a, K, V> where K: Borrow<Q> { Sel { c: self, k: k.to_owned() } } pub fn entry(&self, k: K) -> Sel<'_, K, V> { Sel { c: self, k } } pub fn get_with(&self, k: K, f: impl FnOnce() -> V) -> V { self.entry(k).or_insert_with(f).into_value() } pub fn run_pending_tasks(&self) {} }
    pub struct Sel<'a, K, V> { c: &'a Cache<K, V>, k: K }
    impl<K: Hash + Eq + Clone, V: Clone> Sel<'_, K, V> { pub fn or_insert_with(self, f: impl FnOnce() -> V) -> Entry<K, V> { match self.c.get(&self.k) { Some(v) => Entry { k: self.k, v, fresh: false }, None => { let v = f(); self.c.insert(self.k.clone(), v.clone()); Entry { k: self.k, v, fresh: true } } } } pub fn or_default(self) -> Entry<K, V> where V: Default { self.or_insert_with(V::default) } pub fn or_insert(self, v: V) -> Entry<K, V> { self.or_insert_with(|| v) } }
}
pub mod future { use super::*; use std::future::Future; use crate::ops::compute::{CompResult, Op}; builder!();
    struct Inner<K, V> { s: Store<K, V>, locks: Mutex<HashMap<K, Arc<tokio::sync::Mutex<()>>>> }
    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> { pub async fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.s.get(k) } pub async fn insert(&self, k: K, v: V) { self.0.s.put(k, v) } pub async fn invalidate<Q: ?Sized + Hash + Eq>(&self, k: &Q) where K: Borrow<Q> { self.0.s.m.lock().unwrap().remove(k); } pub async fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.s.m.lock().unwrap().remove(k).map(|i| i.v) } pub fn entry_by_ref<'a, Q: ?Sized + Hash + Eq + ToOwned<Owned = K>>(&'a self, k: &'a Q) -> Sel<'a, K, V> where K: Borrow<Q> { Sel { c: self, k: k.to_owned() } } pub fn entry(&self, k: K) -> Sel<'_, K, V> { Sel { c: self, k } } pub async fn get_with(&self, k: K, f: impl Future<Output = V>) -> V { self.entry(k).or_insert_with(f).await.into_value() } pub async fn run_pending_tasks(&self) {} fn lock(&self, k: &K) -> Arc<tokio::sync::Mutex<()>> { self.0.locks.lock().unwrap().entry(k.clone()).or_default().clone() } }
    pub struct Sel<'a, K, V> { c: &'a Cache<K, V>, k: K }
    impl<K: Hash + Eq + Clone, V: Clone> Sel<'_, K, V> {
        pub async fn or_insert_with(self, f: impl Future<Output = V>) -> Entry<K, V> { self.or_insert_with_if(f, |_| false).await }
        pub async fn or_insert_with_if(self, f: impl Future<Output = V>, mut r: impl FnMut(&V) -> bool + Send) -> Entry<K, V> { let l = self.c.lock(&self.k); let _g = l.lock().await; match self.c.0.s.get(&self.k) { Some(v) if !r(&v) => Entry { k: self.k, v, fresh: false }, _ => { let v = f.await; self.c.0.s.put(self.k.clone(), v.clone()); Entry { k: self.k, v, fresh: true } } } }
        pub async fn and_compute_with<F: FnOnce(Option<Entry<K, V>>) -> Fut, Fut: Future<Output = Op<V>>>(self, f: F) -> CompResult<K, V> { let l = self.c.lock(&self.k); let _g = l.lock().await; let old = self.c.0.s.get(&self.k); match f(old.clone().map(|v| Entry { k: self.k.clone(), v, fresh: false })).await { Op::Nop => match old { Some(v) => CompResult::Unchanged(Entry { k: self.k, v, fresh: false }), None => CompResult::StillNone(Arc::new(self.k)) }, Op::Put(v) => { self.c.0.s.put(self.k.clone(), v.clone()); let e = Entry { k: self.k, v, fresh: true }; if old.is_some() { CompResult::ReplacedWith(e) } else { CompResult::Inserted(e) } } Op::Remove => match old { Some(v) => { self.c.invalidate(&self.k).await; CompResult::Removed(Entry { k: self.k, v, fresh: false }) } None => CompResult::StillNone(Arc::new(self.k)) } } }
    }
}
pub mod ops { pub mod compute { pub use crate::future::Entry; #[derive(Clone, Debug)] pub enum Op<V> { Nop, Put(V), Remove } pub enum CompResult<K, V> { Inserted(Entry<K, V>), ReplacedWith(Entry<K, V>), Removed(Entry<K, V>), Unchanged(Entry<K, V>), StillNone(std::sync::Arc<K>) } impl<K, V> CompResult<K, V> { pub fn unwrap(self) -> Entry<K, V> { match self { Self::Inserted(e) | Self::ReplacedWith(e) | Self::Removed(e) | Self::Unchanged(e) => e, Self::StillNone(_) => panic!("StillNone") } } pub fn into_entry(self) -> Option<Entry<K, V>> { match self { Self::StillNone(_) => None, x => Some(x.unwrap()) } } } } }
