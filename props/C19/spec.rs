use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- ids, their order, and the std functions over them -------------------------------------------------
#[verifier::external_body] pub struct SourceId { s: String }
impl View for SourceId { type V = Str; uninterp spec fn view(&self) -> Str; }
impl Clone for SourceId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct RemoteFileUri { s: String }
impl View for RemoteFileUri { type V = Str; uninterp spec fn view(&self) -> Str; }
impl Clone for RemoteFileUri { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub type Key = (Str, Str);
/// the order of two texts
pub uninterp spec fn slt(a: Str, b: Str) -> bool;
#[verifier::external_body]
pub proof fn ax_slt() ensures forall|a: Str| !#[trigger] slt(a, a), forall|a: Str, b: Str| #[trigger] slt(a, b) || a == b || slt(b, a),
    forall|a: Str, b: Str, c: Str| #[trigger] slt(a, b) && #[trigger] slt(b, c) ==> slt(a, c) {}
/// source first, then location
pub open spec fn klt(a: Key, b: Key) -> bool { slt(a.0, b.0) || a.0 == b.0 && slt(a.1, b.1) }
pub broadcast proof fn lemma_klt(a: Key, b: Key) ensures #[trigger] klt(a, b) || klt(b, a) || a == b, klt(a, b) ==> a != b && !klt(b, a) { ax_slt(); }
pub broadcast proof fn lemma_trans(a: Key, b: Key, c: Key) ensures #[trigger] klt(a, b) && #[trigger] klt(b, c) ==> klt(a, c) { ax_slt(); }
/// a key as the code builds it, borrowed or owned
pub trait KeyView { spec fn kv(&self) -> Key; }
impl<'a> KeyView for (&'a SourceId, &'a RemoteFileUri) { open spec fn kv(&self) -> Key { (self.0@, self.1@) } }
impl KeyView for (SourceId, RemoteFileUri) { open spec fn kv(&self) -> Key { (self.0@, self.1@) } }
/// `f` is a function of its argument as far as keys go
pub open spec fn keyed<T, K: KeyView, F: Fn(&T) -> K>(f: F, v: Seq<T>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> f.requires((&#[trigger] v[i],)))
}
pub open spec fn gives<T, K: KeyView, F: Fn(&T) -> K>(f: F, x: T, k: Key) -> bool { forall|y: K| f.ensures((&x,), y) ==> #[trigger] y.kv() == k }
pub open spec fn nondec<T>(v: Seq<T>, kf: spec_fn(T) -> Key) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> !klt(kf(#[trigger] v[j]), kf(#[trigger] v[i])) }
/// slice::binary_search_by_key, for a slice sorted by the key
#[verifier::external_body]
pub fn vp_bsearch<'a, T, K: KeyView, F: Fn(&'a T) -> K>(v: &'a Vec<T>, key: &K, f: F, Ghost(kf): Ghost<spec_fn(T) -> Key>) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
        forall|x: &'a T, y: K| #[trigger] f.ensures((x,), y) ==> y.kv() == kf(*x),
        nondec(v@, kf),
    ensures match r {
        Ok(i) => i < v@.len() && kf(v@[i as int]) == key.kv(),
        Err(i) => i <= v@.len() && (forall|j: int| 0 <= j < i ==> klt(kf(#[trigger] v@[j]), key.kv())) && forall|j: int| i <= j < v@.len() ==> klt(key.kv(), kf(#[trigger] v@[j])) }
{ unimplemented!() }
/// slice::sort_by_cached_key: stable; `p` is where each element comes from
#[verifier::external_body]
pub fn vp_sort_key<T, K: KeyView, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F, Ghost(kf): Ghost<spec_fn(T) -> Key>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i],)), forall|x: &T, y: K| #[trigger] f.ensures((x,), y) ==> y.kv() == kf(*x),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        nondec(final(v)@, kf),
        forall|x: T| old(v)@.contains(x) == #[trigger] final(v)@.contains(x),
{ unimplemented!() }
/// Vec::dedup_by_key: of every run of elements with the same key the first stays
pub open spec fn runs<T>(v: Seq<T>, r: Seq<T>, kf: spec_fn(T) -> Key, at: Seq<int>) -> bool {
    r.len() == at.len() && (forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] at[i] < v.len() && r[i] == v[at[i]])
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> at[i] < at[j])
    && (forall|i: int| 0 <= i && i + 1 < r.len() ==> kf(#[trigger] r[i]) != kf(r[i + 1]))
    && (forall|j: int| 0 <= j < v.len() ==> exists|i: int| 0 <= i < r.len() && at[i] <= j && kf(#[trigger] r[i]) == kf(#[trigger] v[j]))
}
#[verifier::external_body]
pub fn vp_dedup_key<T, K: KeyView, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F, Ghost(kf): Ghost<spec_fn(T) -> Key>)
    requires forall|x: T| f.requires((&x,)), forall|x: &T, y: K| #[trigger] f.ensures((x,), y) ==> y.kv() == kf(*x),
    ensures exists|at: Seq<int>| #[trigger] runs(old(v)@, final(v)@, kf, at),
{ unimplemented!() }
pub mod sentry { pub enum Level { Error, Warning, Info } pub fn capture_message(m: &str, l: Level) { } }

// ---- the property --------------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/objects/candidates.rs ObjectFeatures derive=Clone, Copy
//@item crates/symbolicator-service/src/objects/candidates.rs ObjectDownloadInfo derive=
//@item crates/symbolicator-service/src/objects/candidates.rs ObjectUseInfo derive=
//@item crates/symbolicator-service/src/objects/candidates.rs ObjectCandidate derive=
//@item crates/symbolicator-service/src/objects/candidates.rs CandidateStatus derive=Structural, PartialEq, Eq
//@item crates/symbolicator-service/src/objects/candidates.rs AllObjectCandidates derive=
impl Clone for ObjectDownloadInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ObjectUseInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ObjectCandidate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ObjectUseInfo { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self == o } }
impl PartialEq for ObjectUseInfo { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }

pub open spec fn key(c: ObjectCandidate) -> Key { (c.source@, c.location@) }
pub open spec fn key_fn() -> spec_fn(ObjectCandidate) -> Key { |c: ObjectCandidate| key(c) }
/// sorted by source and location and free of duplicates
pub open spec fn sorted(s: Seq<ObjectCandidate>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(key(#[trigger] s[i]), key(#[trigger] s[j])) }
pub open spec fn has(s: Seq<ObjectCandidate>, k: Key) -> bool { exists|i: int| 0 <= i < s.len() && key(#[trigger] s[i]) == k }
/// the candidate reported for a source and location
pub open spec fn at(s: Seq<ObjectCandidate>, k: Key) -> Option<ObjectCandidate> {
    if has(s, k) { Some(s[choose|i: int| 0 <= i < s.len() && key(#[trigger] s[i]) == k]) } else { None }
}
pub open spec fn over(a: ObjectUseInfo, b: ObjectUseInfo) -> ObjectUseInfo { if b is None { a } else { b } }
/// candidate `b` merged over what is there
pub open spec fn merged(a: Option<ObjectCandidate>, b: Option<ObjectCandidate>) -> Option<ObjectCandidate> {
    match (a, b) {
        (Some(a), Some(b)) => Some(ObjectCandidate { download: b.download, unwind: over(a.unwind, b.unwind), debug: over(a.debug, b.debug), ..a }),
        (None, b) => b,
        (a, None) => a,
    }
}
pub open spec fn with_status(a: Option<ObjectCandidate>, st: CandidateStatus, info: ObjectUseInfo) -> Option<ObjectCandidate> {
    match (a, st) { (Some(a), CandidateStatus::Debug) => Some(ObjectCandidate { debug: info, ..a }), (Some(a), CandidateStatus::Unwind) => Some(ObjectCandidate { unwind: info, ..a }), (a, _) => a }
}
pub broadcast proof fn lemma_nondec(s: Seq<ObjectCandidate>) requires sorted(s) ensures #[trigger] nondec(s, key_fn())
{ broadcast use lemma_klt; assert forall|i: int, j: int| 0 <= i < j < s.len() implies !klt(key_fn()(#[trigger] s[j]), key_fn()(#[trigger] s[i])) by { assert(klt(key(s[i]), key(s[j]))); } }
pub broadcast proof fn lemma_at(s: Seq<ObjectCandidate>, i: int)
    requires sorted(s), 0 <= i < s.len()
    ensures at(s, key(#[trigger] s[i])) == Some(s[i])
{ let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == key(s[i]); assert(key(s[i]) == key(s[i])); broadcast use lemma_klt; 
  if j < i { assert(klt(key(s[j]), key(s[i]))); } if i < j { assert(klt(key(s[i]), key(s[j]))); } }
/// everything outside the one place is as it was
pub proof fn lemma_update(s: Seq<ObjectCandidate>, t: Seq<ObjectCandidate>, i: int)
    requires sorted(s), 0 <= i < s.len(), t == s.update(i, t[i]), key(t[i]) == key(s[i])
    ensures sorted(t), forall|k: Key| #[trigger] at(t, k) == (if k == key(s[i]) { Some(t[i]) } else { at(s, k) })
{
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies klt(key(#[trigger] t[a]), key(#[trigger] t[b])) by { assert(klt(key(s[a]), key(s[b]))); }
    assert forall|k: Key| #[trigger] at(t, k) == (if k == key(s[i]) { Some(t[i]) } else { at(s, k) }) by {
        lemma_at(t, i);
        if k != key(s[i]) {
            if has(s, k) { let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k; lemma_at(s, j); lemma_at(t, j); assert(t[j] == s[j]); }
            if has(t, k) { let j = choose|j: int| 0 <= j < t.len() && key(#[trigger] t[j]) == k; assert(t[j] == s[j]); assert(has(s, k)); }
        }
    }
}
pub proof fn lemma_insert(s: Seq<ObjectCandidate>, t: Seq<ObjectCandidate>, i: int, c: ObjectCandidate)
    requires sorted(s), 0 <= i <= s.len(), t == s.insert(i, c), forall|j: int| 0 <= j < i ==> klt(key(#[trigger] s[j]), key(c)), forall|j: int| i <= j < s.len() ==> klt(key(c), key(#[trigger] s[j]))
    ensures sorted(t), forall|k: Key| #[trigger] at(t, k) == (if k == key(c) { Some(c) } else { at(s, k) }), at(s, key(c)) is None
{
    broadcast use lemma_klt;
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies klt(key(#[trigger] t[a]), key(#[trigger] t[b])) by {
        let sa = if a < i { a } else { a - 1 }; let sb = if b < i { b } else { b - 1 };
        if a != i { assert(t[a] == s[sa]); } if b != i { assert(t[b] == s[sb]); }
        if a != i && b != i { assert(klt(key(s[sa]), key(s[sb]))); }
    }
    if has(s, key(c)) { let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == key(c); if j < i { assert(klt(key(s[j]), key(c))); } else { assert(klt(key(c), key(s[j]))); } }
    assert forall|k: Key| #[trigger] at(t, k) == (if k == key(c) { Some(c) } else { at(s, k) }) by {
        assert(t[i] == c); lemma_at(t, i);
        if k != key(c) {
            if has(s, k) { let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k; let q = if j < i { j } else { j + 1 }; assert(t[q] == s[j]); lemma_at(s, j); lemma_at(t, q); }
            if has(t, k) { let j = choose|j: int| 0 <= j < t.len() && key(#[trigger] t[j]) == k; let q = if j < i { j } else { j - 1 }; assert(t[j] == s[q]); assert(has(s, k)); }
        }
    }
}
pub broadcast proof fn lemma_updated(s: Seq<ObjectCandidate>, i: int, c: ObjectCandidate)
    requires sorted(s), 0 <= i < s.len(), key(c) == key(s[i])
    ensures sorted(#[trigger] s.update(i, c)), forall|k: Key| #[trigger] at(s.update(i, c), k) == (if k == key(s[i]) { Some(c) } else { at(s, k) })
{ lemma_update(s, s.update(i, c), i); }
pub broadcast proof fn lemma_inserted(s: Seq<ObjectCandidate>, i: int, c: ObjectCandidate)
    requires sorted(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> klt(key(#[trigger] s[j]), key(c)), forall|j: int| i <= j < s.len() ==> klt(key(c), key(#[trigger] s[j]))
    ensures sorted(#[trigger] s.insert(i, c)), forall|k: Key| #[trigger] at(s.insert(i, c), k) == (if k == key(c) { Some(c) } else { at(s, k) }), at(s, key(c)) is None
{ lemma_insert(s, s.insert(i, c), i, c); }
pub proof fn lemma_runs(v: Seq<ObjectCandidate>, r: Seq<ObjectCandidate>, w: Seq<int>)
    requires runs(v, r, key_fn(), w), nondec(v, key_fn())
    ensures sorted(r)
{
    assert(stepping(r)) by { reveal(stepping); assert forall|j: int| 0 < j < r.len() implies klt(key(#[trigger] r[j - 1]), key(r[j])) by { lemma_run_step(v, r, w, j); } }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies klt(key(#[trigger] r[i]), key(#[trigger] r[j])) by { lemma_run_lt(r, i, j); }
}
pub proof fn lemma_run_step(v: Seq<ObjectCandidate>, r: Seq<ObjectCandidate>, w: Seq<int>, j: int)
    requires runs(v, r, key_fn(), w), nondec(v, key_fn()), 0 < j < r.len()
    ensures klt(key(r[j - 1]), key(r[j]))
{
    let kf = key_fn();
    assert(w[j - 1] < w[j]); assert(r[j - 1] == v[w[j - 1]] && r[j] == v[w[j]]);
    assert(kf(r[j - 1]) != kf(r[j - 1 + 1]));
    assert(!klt(kf(v[w[j]]), kf(v[w[j - 1]])));
    lemma_klt(key(r[j - 1]), key(r[j]));
}
#[verifier::opaque]
pub open spec fn stepping(r: Seq<ObjectCandidate>) -> bool { forall|j: int| 0 < j < r.len() ==> klt(key(#[trigger] r[j - 1]), key(r[j])) }
pub proof fn lemma_run_lt(r: Seq<ObjectCandidate>, i: int, j: int)
    requires stepping(r), 0 <= i < j < r.len()
    ensures klt(key(r[i]), key(r[j]))
    decreases j - i
{
    assert(klt(key(r[j - 1]), key(r[j]))) by { reveal(stepping); }
    if i < j - 1 { lemma_run_lt(r, i, j - 1); lemma_trans(key(r[i]), key(r[j - 1]), key(r[j])); }
}
pub proof fn lemma_prefix(s: Seq<ObjectCandidate>, n: int)
    requires sorted(s), 0 <= n < s.len()
    ensures forall|k: Key| #[trigger] at(s.subrange(0, n + 1), k) == (if k == key(s[n]) { Some(s[n]) } else { at(s.subrange(0, n), k) }), at(s.subrange(0, n), key(s[n])) is None
{
    let p = s.subrange(0, n); let q = s.subrange(0, n + 1);
    assert(sorted(p)); assert(sorted(q)); assert(q =~= p.insert(n, s[n]));
    assert forall|j: int| 0 <= j < n implies klt(key(#[trigger] p[j]), key(s[n])) by { assert(klt(key(s[j]), key(s[n]))); }
    lemma_insert(p, q, n, s[n]);
}
pub proof fn lemma_from(g0: Seq<ObjectCandidate>, g1: Seq<ObjectCandidate>, r: Seq<ObjectCandidate>, w: Seq<int>)
    requires runs(g1, r, key_fn(), w), forall|x: ObjectCandidate| g0.contains(x) == #[trigger] g1.contains(x)
    ensures forall|k: Key| #[trigger] has(r, k) == has(g0, k), forall|i: int| 0 <= i < r.len() ==> g0.contains(#[trigger] r[i])
{
    assert forall|i: int| 0 <= i < r.len() implies g0.contains(#[trigger] r[i]) by { assert(r[i] == g1[w[i]]); assert(g1.contains(r[i])); }
    assert forall|k: Key| #[trigger] has(r, k) == has(g0, k) by {
        if has(r, k) { let i = choose|i: int| 0 <= i < r.len() && key(#[trigger] r[i]) == k; assert(g0.contains(r[i])); let j = choose|j: int| 0 <= j < g0.len() && g0[j] == r[i]; assert(key(g0[j]) == k); }
        if has(g0, k) { let i = choose|i: int| 0 <= i < g0.len() && key(#[trigger] g0[i]) == k; assert(g0.contains(g0[i])); assert(g1.contains(g0[i]));
            let j = choose|j: int| 0 <= j < g1.len() && g1[j] == g0[i]; assert(key_fn()(g1[j]) == k);
            let q = choose|q: int| 0 <= q < r.len() && w[q] <= j && key_fn()(#[trigger] r[q]) == key_fn()(g1[j]); assert(key(r[q]) == k); }
    }
}
impl AllObjectCandidates {
//@fn crates/symbolicator-service/src/objects/candidates.rs AllObjectCandidates::set_status
//@sub self . 0 . binary_search_by_key ( & ( source , uri ) , | candidate | ==> vp_bsearch(&self.0, &(source, uri), |candidate: &ObjectCandidate| -> (k: (&SourceId, &RemoteFileUri)) ensures k.kv() == key(*candidate)
//@sub } ) ; match ==> }, Ghost(key_fn())); match
//@spec
    requires sorted(old(self).0@),
    ensures sorted(final(self).0@),
        forall|k: Key| #[trigger] at(final(self).0@, k) == (if k == (source@, uri@) { with_status(at(old(self).0@, k), candidate_status, info) } else { at(old(self).0@, k) }),
//@start
    broadcast use lemma_nondec, lemma_updated, lemma_inserted, lemma_klt, lemma_at;
//@end

//@fn crates/symbolicator-service/src/objects/candidates.rs AllObjectCandidates::merge_one
//@sub self . 0 . binary_search_by_key ( & key , | candidate | ( & candidate . source , & candidate . location ) ) ==> vp_bsearch(&self.0, &key, |candidate: &ObjectCandidate| -> (k: (&SourceId, &RemoteFileUri)) ensures k.kv() == crate::key(*candidate) { (&candidate.source, &candidate.location) }, Ghost(key_fn()))
//@spec
    requires sorted(old(self).0@),
    ensures sorted(final(self).0@),
        forall|k: Key| #[trigger] at(final(self).0@, k) == (if k == crate::key(*candidate) { merged(at(old(self).0@, k), Some(*candidate)) } else { at(old(self).0@, k) }),
//@start
    broadcast use lemma_nondec, lemma_updated, lemma_inserted, lemma_klt, lemma_at;
//@end

//@fn crates/symbolicator-service/src/objects/candidates.rs AllObjectCandidates::merge
//@spec
    requires sorted(old(self).0@), sorted(other.0@),
    ensures sorted(final(self).0@),
        forall|k: Key| #[trigger] at(final(self).0@, k) == merged(at(old(self).0@, k), at(other.0@, k)),
//@start
    proof { assert(other.0@.subrange(0, other.0@.len() as int) =~= other.0@); }
//@loop 0 iter=it
    invariant sorted(self.0@), sorted(other.0@), it.index@ <= other.0@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == other.0@[i], it.seq().len() == other.0@.len(),
        forall|k: Key| #[trigger] at(self.0@, k) == merged(at(old(self).0@, k), at(other.0@.subrange(0, it.index@ as int), k)),
//@body 0
    proof { lemma_prefix(other.0@, it.index@ as int); }
//@end

//@fn crates/symbolicator-service/src/objects/candidates.rs <From for AllObjectCandidates>::from as=all_from
//@sub source . sort_by_cached_key ( | candidate | ==> vp_sort_key(&mut source, |candidate: &ObjectCandidate| -> (k: (SourceId, RemoteFileUri)) ensures k.kv() == key(*candidate) {
//@sub ) ; source . dedup_by_key ( | candidate | ==> }, Ghost(key_fn())); vp_dedup_key(&mut source, |candidate: &ObjectCandidate| -> (k: (SourceId, RemoteFileUri)) ensures k.kv() == key(*candidate) {
//@sub ) ; Self ( source ) ==> }, Ghost(key_fn())); AllObjectCandidates(source)
//@ret r
//@spec
    ensures sorted(r.0@), forall|k: Key| #[trigger] has(r.0@, k) == has(source@, k), forall|i: int| 0 <= i < r.0@.len() ==> source@.contains(#[trigger] r.0@[i]),
//@start
    let ghost g0 = source@; let ghost mut g1 = source@;
//@before? vp_dedup_key
    proof { g1 = source@; }
//@finish
    proof { let w = choose|w: Seq<int>| #[trigger] runs(g1, r.0@, key_fn(), w); lemma_runs(g1, r.0@, w); lemma_from(g0, g1, r.0@, w); }
//@end
}

// ---- the list of an object lookup: every location tried, and every source that had none ------------------
pub type Duration = u128;
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError derive=
pub type CacheContents<T = ()> = Result<T, CacheError>;
impl CacheError { pub uninterp spec fn text(&self) -> Str; #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct RemoteFile { a: u8 }
impl RemoteFile { pub uninterp spec fn sid(&self) -> Str; pub uninterp spec fn loc(&self) -> Str;
    #[verifier::external_body] pub fn source_id(&self) -> (r: &SourceId) ensures r@ == self.sid() { unimplemented!() }
    #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r@ == self.loc() { unimplemented!() } }
#[verifier::external_body] pub struct SourceConfig { a: u8 }
impl SourceConfig { pub uninterp spec fn sid(&self) -> Str; #[verifier::external_body] pub fn id(&self) -> (r: &SourceId) ensures r@ == self.sid() { unimplemented!() } }
impl RemoteFileUri { #[verifier::external_body] pub fn new(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() } }
pub struct ObjectMetaHandle { pub features: ObjectFeatures }
impl ObjectMetaHandle {
//@fn crates/symbolicator-service/src/objects/meta_cache.rs ObjectMetaHandle::features
//@ret r
//@spec
    ensures r == self.features,
//@end
}
pub type Arc<T> = T;
impl ObjectUseInfo {
//@fn crates/symbolicator-service/src/objects/candidates.rs <Default for ObjectUseInfo>::default
//@ret r
//@spec
    ensures r is None,
//@end
}
//@item crates/symbolicator-service/src/objects/mod.rs FoundMeta derive=
/// a set of ids, kept as a list: only membership counts
pub open spec fn hasid(v: Seq<SourceId>, x: Str) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x }
pub trait VpIds { spec fn ids(&self) -> Seq<SourceId>; fn take(&mut self, id: &SourceId) -> (r: Option<SourceId>) ensures final(self).ids().len() <= old(self).ids().len(), forall|x: Str| #[trigger] hasid(final(self).ids(), x) == (hasid(old(self).ids(), x) && x != id@); }
impl VpIds for Vec<SourceId> { open spec fn ids(&self) -> Seq<SourceId> { self@ }
    #[verifier::external_body] fn take(&mut self, id: &SourceId) -> (r: Option<SourceId>) { unimplemented!() } }
pub open spec fn ids_upto(s: Seq<SourceConfig>, n: int, v: Seq<SourceId>) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == s[i].sid() }
pub open spec fn in_srcs(s: Seq<SourceConfig>, x: Str) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sid() == x }
pub open spec fn in_list(l: Seq<FoundMeta>, n: int, x: Str) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i]).file_source.sid() == x }
/// after `n` lookups
pub open spec fn listed(l: Seq<FoundMeta>, n: int, c: Seq<ObjectCandidate>) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> info_of(l[i], #[trigger] c[i]) }
pub open spec fn none_listed(v: Seq<SourceId>, n: int, c: Seq<ObjectCandidate>, base: int) -> bool { c.len() == base + n && forall|i: int| 0 <= i < n ==> nothing_of((#[trigger] v[i])@, c[base + i]) }
pub open spec fn tells(h: CacheContents<ObjectMetaHandle>, d: ObjectDownloadInfo) -> bool {
    match (h, d) {
        (Ok(h), ObjectDownloadInfo::Ok { features }) => features == h.features,
        (Err(CacheError::NotFound), ObjectDownloadInfo::NotFound) => true,
        (Err(CacheError::PermissionDenied(m)), ObjectDownloadInfo::NoPerm { details }) => details@ == m@,
        (Err(CacheError::Malformed(_)), ObjectDownloadInfo::Malformed) => true,
        (Err(CacheError::Timeout(_)), ObjectDownloadInfo::Error { details }) => true,
        (Err(CacheError::DownloadError(_)), ObjectDownloadInfo::Error { details }) => true,
        (Err(CacheError::Unsupported(_)), ObjectDownloadInfo::Error { details }) => true,
        (Err(CacheError::InternalError), ObjectDownloadInfo::Error { details }) => true,
        _ => false,
    }
}
/// the candidate of one lookup
pub open spec fn info_of(m: FoundMeta, c: ObjectCandidate) -> bool { key(c) == mkey(m) && tells(m.handle, c.download) && c.unwind is None && c.debug is None }
pub open spec fn mkey(m: FoundMeta) -> Key { (m.file_source.sid(), m.file_source.loc()) }
/// the candidate of a source without a location
pub open spec fn nothing_of(id: Str, c: ObjectCandidate) -> bool { key(c) == (id, "No object files listed on this source"@) && c.download is NotFound && c.unwind is None && c.debug is None }
pub open spec fn of_lookup(l: Seq<FoundMeta>, c: ObjectCandidate) -> bool { exists|i: int| 0 <= i < l.len() && info_of(#[trigger] l[i], c) }
pub open spec fn tried(l: Seq<FoundMeta>, id: Str) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).file_source.sid() == id }
pub open spec fn of_source(s: Seq<SourceConfig>, l: Seq<FoundMeta>, id: Str) -> bool { !tried(l, id) && exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sid() == id }
pub open spec fn complete(s: Seq<SourceConfig>, l: Seq<FoundMeta>, r: Seq<ObjectCandidate>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> has(r, mkey(#[trigger] l[i]))) && (forall|id: Str| #[trigger] of_source(s, l, id) ==> has(r, (id, "No object files listed on this source"@)))
    && forall|i: int| 0 <= i < r.len() ==> of_lookup(l, #[trigger] r[i]) || of_source(s, l, r[i].source@) && nothing_of(r[i].source@, r[i])
}

//@fn crates/symbolicator-service/src/objects/mod.rs create_candidate_info
//@sub Default :: default ( ) ==> ObjectUseInfo::default()
//@ret r
//@spec
    ensures info_of(*meta_lookup, r),
//@end

pub proof fn lemma_in_list(l: Seq<FoundMeta>, n: int)
    requires 0 <= n < l.len()
    ensures forall|x: Str| #[trigger] in_list(l, n + 1, x) == (in_list(l, n, x) || x == l[n].file_source.sid())
{ assert forall|x: Str| #[trigger] in_list(l, n + 1, x) == (in_list(l, n, x) || x == l[n].file_source.sid()) by {
    if in_list(l, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).file_source.sid() == x; assert(l[i].file_source.sid() == x); }
    if x == l[n].file_source.sid() { assert(l[n].file_source.sid() == x); } } }
/// the unsorted list has them all; sorting and deduplication keep every key and invent nothing
pub proof fn lemma_complete(s: Seq<SourceConfig>, l: Seq<FoundMeta>, g1: Seq<ObjectCandidate>, g2: Seq<SourceId>, c: Seq<ObjectCandidate>)
    requires listed(l, l.len() as int, g1), none_listed(g2, g2.len() as int, c, g1.len() as int), forall|i: int| 0 <= i < g1.len() ==> c[i] == #[trigger] g1[i],
        forall|x: Str| #[trigger] hasid(g2, x) == (in_srcs(s, x) && !in_list(l, l.len() as int, x)),
    ensures complete(s, l, c), forall|r: Seq<ObjectCandidate>| (forall|k: Key| #[trigger] has(r, k) == has(c, k)) && (forall|i: int| 0 <= i < r.len() ==> c.contains(#[trigger] r[i])) ==> #[trigger] complete(s, l, r)
{
    let no = "No object files listed on this source"@;
    assert forall|i: int| 0 <= i < l.len() implies has(c, mkey(#[trigger] l[i])) by { assert(info_of(l[i], g1[i])); assert(c[i] == g1[i]); assert(key(c[i]) == mkey(l[i])); }
    assert forall|id: Str| #[trigger] of_source(s, l, id) implies has(c, (id, no)) by { assert(in_srcs(s, id)); assert(!in_list(l, l.len() as int, id)); assert(hasid(g2, id));
        let i = choose|i: int| 0 <= i < g2.len() && (#[trigger] g2[i])@ == id; assert(nothing_of(g2[i]@, c[g1.len() + i])); assert(key(c[g1.len() + i]) == (id, no)); }
    assert forall|i: int| 0 <= i < c.len() implies of_lookup(l, #[trigger] c[i]) || of_source(s, l, c[i].source@) && nothing_of(c[i].source@, c[i]) by {
        if i < g1.len() { assert(c[i] == g1[i]); assert(info_of(l[i], g1[i])); }
        else { let q = i - g1.len(); assert(nothing_of(g2[q]@, c[g1.len() + q])); assert(hasid(g2, g2[q]@)); assert(in_srcs(s, g2[q]@)); assert(of_source(s, l, g2[q]@)); }
    }
    assert forall|r: Seq<ObjectCandidate>| (forall|k: Key| #[trigger] has(r, k) == has(c, k)) && (forall|i: int| 0 <= i < r.len() ==> c.contains(#[trigger] r[i])) implies #[trigger] complete(s, l, r) by {
        assert forall|i: int| 0 <= i < r.len() implies of_lookup(l, #[trigger] r[i]) || of_source(s, l, r[i].source@) && nothing_of(r[i].source@, r[i]) by {
            assert(c.contains(r[i])); let j = choose|j: int| 0 <= j < c.len() && c[j] == r[i]; assert(of_lookup(l, c[j]) || of_source(s, l, c[j].source@)); } }
}
//@fn crates/symbolicator-service/src/objects/mod.rs create_candidates stub=new
//@sub BTreeSet < SourceId > ==> Vec<SourceId>
//@sub Default :: default ( ) ==> ObjectUseInfo::default()
//@sub candidates . into ( ) ==> AllObjectCandidates::all_from(candidates)
//@ret r
//@spec
    requires lookups@.len() + sources@.len() <= usize::MAX,
    ensures sorted(r.0@), complete(sources@, lookups@, r.0@),
//@loop 0 iter=it
    invariant it.seq().len() == sources@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == sources@[i], ids_upto(sources@, it.index@ as int, vp_acc@),
//@before let mut candidates
    proof { let ghost g = source_ids@; assert forall|x: Str| #[trigger] hasid(source_ids@, x) == in_srcs(sources@, x) by {
        if hasid(g, x) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i])@ == x; assert(sources@[i].sid() == x); }
        if in_srcs(sources@, x) { let i = choose|i: int| 0 <= i < sources@.len() && (#[trigger] sources@[i]).sid() == x; assert(g[i]@ == x); } } }
//@loop 1 iter=it
    invariant it.seq().len() == lookups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == lookups@[i], listed(lookups@, it.index@ as int, candidates@),
        forall|x: Str| #[trigger] hasid(source_ids@, x) == (in_srcs(sources@, x) && !in_list(lookups@, it.index@ as int, x)),
//@body 1
    proof { lemma_in_list(lookups@, it.index@ as int); assert(*it.seq()[it.index@ as int] == lookups@[it.index@ as int]); }
//@before for source_id in source_ids
    let ghost g1 = candidates@; let ghost g2 = source_ids@;
//@loop 2 iter=it
    invariant it.seq() == g2, none_listed(g2, it.index@ as int, candidates@, g1.len() as int), forall|i: int| 0 <= i < g1.len() ==> candidates@[i] == #[trigger] g1[i],
        listed(lookups@, lookups@.len() as int, g1), forall|x: Str| #[trigger] hasid(g2, x) == (in_srcs(sources@, x) && !in_list(lookups@, lookups@.len() as int, x)),
//@before AllObjectCandidates :: all_from
    proof { lemma_complete(sources@, lookups@, g1, g2, candidates@); }
//@end
}
fn main() {}
