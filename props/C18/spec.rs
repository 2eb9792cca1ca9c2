use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../modules.rs

// ---- std over modules -------------------------------------------------------------------------------------
/// `o` is a reordering of `n`: where each element comes from
pub open spec fn reorders(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j] }
/// slice::sort_by_key: keeps the elements, orders them by their keys, and equal ones stay as they were
#[verifier::external_body]
pub fn vp_sort<K: Key, F: Fn(&ModuleEntry) -> K>(v: &mut Vec<ModuleEntry>, f: F, Ghost(kf): Ghost<spec_fn(ModuleEntry) -> int>)
    requires forall|x: &ModuleEntry| f.requires((x,)), forall|x: &ModuleEntry, y: K| #[trigger] f.ensures((x,), y) ==> y.val() == kf(*x),
    ensures exists|p: Seq<int>| #[trigger] reorders(p, old(v)@.len() as int) && final(v)@.len() == old(v)@.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] final(v)@[i] == old(v)@[p[i]])
        && forall|i: int, j: int| 0 <= i < j < p.len() ==> kf(#[trigger] final(v)@[i]) < kf(#[trigger] final(v)@[j]) || kf(final(v)@[i]) == kf(final(v)@[j]) && p[i] < p[j]
{ unimplemented!() }
/// the same over modules, with what follows for their positions
pub fn vp_sort_modules<K: Key, F: Fn(&ModuleEntry) -> K>(v: &mut Vec<ModuleEntry>, f: F, Ghost(kf): Ghost<spec_fn(ModuleEntry) -> int>)
    requires forall|x: &ModuleEntry| f.requires((x,)), forall|x: &ModuleEntry, y: K| #[trigger] f.ensures((x,), y) ==> y.val() == kf(*x),
    ensures final(v)@.len() == old(v)@.len(), complete(old(v)@) ==> complete(final(v)@), forall|i: int| 0 <= i < old(v)@.len() ==> comes(#[trigger] final(v)@[i], old(v)@),
        forall|i: int, j: int| 0 <= i < j < old(v)@.len() ==> kf(#[trigger] final(v)@[i]) <= kf(#[trigger] final(v)@[j]),
        complete(old(v)@) && (forall|m: ModuleEntry| #[trigger] kf(m) == m.module_index) ==> forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[(#[trigger] old(v)@[i]).module_index as int] == old(v)@[i],
{
    let ghost a = v@;
    vp_sort(v, f, Ghost(kf));
    proof {
        let p = choose|p: Seq<int>| #[trigger] reorders(p, a.len() as int) && v@.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] v@[i] == a[p[i]])
            && forall|i: int, j: int| 0 <= i < j < p.len() ==> kf(#[trigger] v@[i]) < kf(#[trigger] v@[j]) || kf(v@[i]) == kf(v@[j]) && p[i] < p[j];
        if complete(a) { reordered(a, v@, p); }
        if complete(a) && forall|m: ModuleEntry| #[trigger] kf(m) == m.module_index {
            assert forall|i: int, j: int| 0 <= i < j < v@.len() implies (#[trigger] v@[i]).module_index < (#[trigger] v@[j]).module_index by { assert(kf(v@[i]) <= kf(v@[j])); }
            identity(v@);
            assert forall|i: int| 0 <= i < a.len() implies v@[(#[trigger] a[i]).module_index as int] == a[i] by { let k = a[i].module_index as int; assert(v@[k] == a[p[k]]); if p[k] < i {} else if i < p[k] {} }
        }
        assert forall|i: int| 0 <= i < a.len() implies comes(#[trigger] v@[i], a) by { assert(v@[i] == a[p[i]]); }
    }
}
pub open spec fn comes(x: ModuleEntry, a: Seq<ModuleEntry>) -> bool { exists|j: int| 0 <= j < a.len() && x == #[trigger] a[j] }
pub trait Key: Sized { spec fn val(self) -> int; }
impl Key for u64 { open spec fn val(self) -> int { self as int } }
impl Key for usize { open spec fn val(self) -> int { self as int } }
#[verifier::external_body]
pub fn vp_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures match r { Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)), None => i >= old(v)@.len() && *final(v) == *old(v) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_take(x: &mut Option<String>) -> (r: Option<String>) ensures r == *old(x), *final(x) is None { unimplemented!() }
/// Vec::iter_mut().find(..)
#[verifier::external_body]
pub fn vp_find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|x: &T| f.requires((x,)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < old(v)@.len() && *x == #[trigger] old(v)@[i] && f.ensures((&old(v)@[i],), true) && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] old(v)@[j],), false)) && final(v)@ == old(v)@.update(i, *final(x)),
        None => *final(v) == *old(v) && forall|j: int| 0 <= j < old(v)@.len() ==> f.ensures((&#[trigger] old(v)@[j],), false) }
{ unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { s: Vec<T> }
impl HashSet<usize> {
    pub uninterp spec fn has(&self, x: usize) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures forall|x: usize| !(#[trigger] r.has(x)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures forall|y: usize| #[trigger] final(self).has(y) == (old(self).has(y) || y == x) { unimplemented!() }
    #[verifier::external_body] pub fn vp_contains(&self, x: &usize) -> (r: bool) ensures r == self.has(*x) { unimplemented!() }
}
impl Clone for Scope { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Sources { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- the parts of a module ----------------------------------------------------------------------------------
impl RewriteRules { pub uninterp spec fn of(&self, s: Str) -> Option<String>; #[verifier::external_body] pub fn rewrite(&self, s: &str) -> (r: Option<String>) ensures r == self.of(s@) { unimplemented!() } }
impl AllObjectCandidates {
    pub uninterp spec fn merged(self, o: AllObjectCandidates) -> AllObjectCandidates;
    pub uninterp spec fn merged_one(self, o: ObjectCandidate) -> AllObjectCandidates;
    #[verifier::external_body] pub fn merge(&mut self, o: &AllObjectCandidates) ensures *final(self) == old(self).merged(*o) { unimplemented!() }
    #[verifier::external_body] pub fn merge_one(&mut self, o: &ObjectCandidate) ensures *final(self) == old(self).merged_one(*o) { unimplemented!() }
}
impl ObjectFeatures {
//@fn crates/symbolicator-service/src/objects/candidates.rs ObjectFeatures::merge
//@sub? self . has_debug_info |= other . has_debug_info ==> self . has_debug_info = self . has_debug_info || other . has_debug_info
//@sub? self . has_unwind_info |= other . has_unwind_info ==> self . has_unwind_info = self . has_unwind_info || other . has_unwind_info
//@sub? self . has_symbols |= other . has_symbols ==> self . has_symbols = self . has_symbols || other . has_symbols
//@sub? self . has_sources |= other . has_sources ==> self . has_sources = self . has_sources || other . has_sources
//@spec
    ensures *final(self) == union(*old(self), other)
//@end
}
pub open spec fn union(a: ObjectFeatures, b: ObjectFeatures) -> ObjectFeatures { ObjectFeatures { has_debug_info: a.has_debug_info || b.has_debug_info, has_unwind_info: a.has_unwind_info || b.has_unwind_info, has_symbols: a.has_symbols || b.has_symbols, has_sources: a.has_sources || b.has_sources } }


// ---- the files of a module ------------------------------------------------------------------------------------
#[verifier::external_body] pub struct DebugId { s: String }
/// str::parse
pub trait VpParse: Sized { spec fn parsed(s: Str) -> Option<Self>; }
impl VpParse for DebugId { uninterp spec fn parsed(s: Str) -> Option<Self>; }
impl VpParse for CodeId { uninterp spec fn parsed(s: Str) -> Option<Self>; }
#[verifier::external_body] pub fn vp_parse<X: VpParse>(s: &str) -> (r: Option<X>) ensures r == X::parsed(s@) { unimplemented!() }
impl VpCl for Option<String> { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
pub trait VpCl: Sized { fn vp_cl(&self) -> (r: Self) ensures r == *self; }
pub trait VpDeref { fn vp_deref(&self) -> (r: Option<&str>); }
impl VpDeref for Option<String> { #[verifier::external_body] fn vp_deref(&self) -> (r: Option<&str>) ensures match r { Some(x) => *self matches Some(y) && x@ == y@, None => *self is None } { unimplemented!() } }
#[verifier::external_body] pub fn vp_empty(s: &str) -> (r: bool) ensures r == (s@ == ""@) { unimplemented!() }
//@item crates/symbolicator-sources/src/types.rs ObjectId derive=
pub open spec fn id_of<X: VpParse>(s: Option<String>) -> Option<X> { match s { Some(t) => if t@ == ""@ { None } else { X::parsed(t@) }, None => None } }
/// what is looked for: the identity of the module itself
pub open spec fn identity_of(o: RawObjectInfo) -> ObjectId {
    ObjectId { code_id: id_of(o.code_id), code_file: o.code_file, debug_id: id_of(o.debug_id), debug_file: o.debug_file, debug_checksum: o.debug_checksum, object_type: o.ty }
}
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs object_id_from_object_info
//@sub? string . parse ( ) . ok ( ) ==> vp_parse ( string )
//@sub? . as_deref ( ) ==> . vp_deref ( )
//@sub? None | Some ( "" ) => None , ==> None => None , Some ( vp_s ) if vp_empty ( vp_s ) => None ,
//@ret r
//@spec
    ensures r == identity_of(*object_info)
//@end
//@item crates/symbolicator-native/src/caches/symcaches.rs FetchSymCache derive=
//@isub? Arc<[SourceConfig]> ==> Sources
//@item crates/symbolicator-native/src/caches/ppdb_caches.rs FetchPortablePdbCache derive=
//@isub? Arc<[SourceConfig]> ==> Sources
//@item crates/symbolicator-native/src/caches/derived.rs DerivedCache derive=
#[verifier::external_body] pub struct SymCacheActor { s: u8 }
#[verifier::external_body] pub struct PortablePdbCacheActor { s: u8 }
impl Clone for SymCacheActor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PortablePdbCacheActor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SymCacheActor { pub uninterp spec fn file(&self, q: FetchSymCache) -> DerivedCache<OwnedSymCache>; #[verifier::external_body] pub fn fetch(&self, q: FetchSymCache) -> (r: DerivedCache<OwnedSymCache>) ensures r == self.file(q) { unimplemented!() } }
impl PortablePdbCacheActor { pub uninterp spec fn file(&self, q: FetchPortablePdbCache) -> DerivedCache<OwnedPortablePdbCache>; #[verifier::external_body] pub fn fetch(&self, q: FetchPortablePdbCache) -> (r: DerivedCache<OwnedPortablePdbCache>) ensures r == self.file(q) { unimplemented!() } }
#[verifier::external_body] pub struct SymCache { s: u8 }
impl OwnedSymCache { pub uninterp spec fn arch_of(&self) -> Arch; #[verifier::external_body] pub fn get(&self) -> (r: &SymCache) ensures r.arch_of() == self.arch_of() { unimplemented!() } }
impl SymCache { pub uninterp spec fn arch_of(&self) -> Arch; #[verifier::external_body] pub fn arch(&self) -> (r: Arch) ensures r == self.arch_of() { unimplemented!() } }
impl Arch { pub uninterp spec fn unknown() -> Arch; }
#[verifier::external_body] pub fn vp_no_arch() -> (r: Arch) ensures r == Arch::unknown() { unimplemented!() }
/// the status a module has for the outcome of its lookup
pub open spec fn status_of<X>(c: CacheContents<X>) -> ObjectFileStatus {
    match c { Ok(_) => ObjectFileStatus::Found, Err(CacheError::NotFound) => ObjectFileStatus::Missing, Err(CacheError::PermissionDenied(_)) | Err(CacheError::DownloadError(_)) => ObjectFileStatus::FetchingFailed,
        Err(CacheError::Timeout(_)) => ObjectFileStatus::Timeout, Err(CacheError::Malformed(_)) => ObjectFileStatus::Malformed, Err(CacheError::Unsupported(_)) => ObjectFileStatus::Unsupported, Err(CacheError::InternalError) => ObjectFileStatus::Other }
}
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs object_file_status_from_cache_contents
//@ret r
//@spec
    ensures r == status_of(*cache_contents)
//@end
//@include ../frames.rs
//@item crates/symbolicator-native/src/interface.rs CompleteStacktrace derive=

// ---- the submitted list ---------------------------------------------------------------------------------------
/// the module `e`, at position `i` of the sorted list `m`, is one of the submitted ones with the missing size filled in; the first
/// one may have been renamed
pub open spec fn filled(m: Seq<ModuleEntry>, i: int, input: CompleteObjectInfo) -> CompleteObjectInfo {
    CompleteObjectInfo { raw: RawObjectInfo { image_size: if size0(input) == 0 && i + 1 < m.len() { Some((start(m[i + 1]) - start(m[i])) as u64) } else { input.raw.image_size }, ..input.raw }, ..input }
}
pub open spec fn size0(o: CompleteObjectInfo) -> u64 { match o.raw.image_size { Some(n) => n, None => 0 } }
pub open spec fn renamed(o: CompleteObjectInfo, f: Option<String>) -> CompleteObjectInfo { CompleteObjectInfo { raw: RawObjectInfo { debug_file: f, ..o.raw }, ..o } }
pub open spec fn rename(r: RewriteRules, o: CompleteObjectInfo) -> Option<String> { match o.raw.debug_file { Some(f) => r.of(f@), None => None } }
/// the lookup holds exactly the submitted modules
pub open spec fn holds(l: ModuleLookup, input: Seq<CompleteObjectInfo>, r: RewriteRules) -> bool {
    let m = l.modules@;
    l.wf() && m.len() == input.len()
    && (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).cache == Err::<CacheFileEntry, CacheError>(CacheError::NotFound) && m[i].source_object == Err::<ObjectHandle, CacheError>(CacheError::NotFound))
    && (forall|i: int| 0 < i < m.len() ==> (#[trigger] m[i]).object_info == filled(m, i, input[m[i].module_index as int]))
    && (m.len() > 0 ==> { let o = filled(m, 0, input[m[0].module_index as int]);
        match rename(r, o) { Some(f) => l.original_first_debug_file == o.raw.debug_file && m[0].object_info == renamed(o, Some(f)), None => l.original_first_debug_file is None && m[0].object_info == o } })
    && (m.len() == 0 ==> l.original_first_debug_file is None)
}
/// the info of a module with its own name again
pub open spec fn restored(l: ModuleLookup, i: int) -> CompleteObjectInfo { let o = l.modules@[i].object_info; if i == 0 && l.original_first_debug_file is Some { renamed(o, l.original_first_debug_file) } else { o } }
pub open spec fn in_order(l: ModuleLookup, r: Seq<CompleteObjectInfo>) -> bool { r.len() == l.modules@.len() && forall|i: int| 0 <= i < l.modules@.len() ==> #[trigger] r[l.modules@[i].module_index as int] == restored(l, i) }

/// distinct positions below `n`, in increasing order, are all of them
pub proof fn all_of(m: Seq<ModuleEntry>, k: int)
    requires 0 <= k <= m.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).module_index < m.len(), forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).module_index < (#[trigger] m[j]).module_index,
    ensures k > 0 ==> m[k - 1].module_index >= k - 1, k < m.len() ==> m[k].module_index >= k, forall|i: int| 0 <= i < k ==> (#[trigger] m[i]).module_index >= i
    decreases k
{ if k > 0 { all_of(m, k - 1); } }
pub proof fn below(m: Seq<ModuleEntry>, k: int)
    requires 0 <= k < m.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).module_index < m.len(), forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).module_index < (#[trigger] m[j]).module_index,
    ensures m[k].module_index <= k
    decreases m.len() - k
{ if k + 1 < m.len() { below(m, k + 1); assert(m[k].module_index < m[k + 1].module_index); } }
pub proof fn identity(m: Seq<ModuleEntry>)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).module_index < m.len(), forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).module_index < (#[trigger] m[j]).module_index,
    ensures forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).module_index == i
{ all_of(m, m.len() as int); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).module_index == i by { below(m, i); } }
/// a reordering keeps every position
pub proof fn reordered(a: Seq<ModuleEntry>, b: Seq<ModuleEntry>, p: Seq<int>)
    requires complete(a), reorders(p, a.len() as int), a.len() == b.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]],
    ensures complete(b)
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).module_index < b.len() by { assert(b[i] == a[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).module_index != (#[trigger] b[j]).module_index by { assert(b[i] == a[p[i]] && b[j] == a[p[j]]); if p[i] < p[j] {} else {} }
}


// ---- looking the files up ---------------------------------------------------------------------------------------
/// some frame belongs to module `i`
pub open spec fn used(m: Seq<ModuleEntry>, t: Seq<RawStacktrace>, n: int, k: usize) -> bool { exists|a: int| 0 <= a < n && used_by(m, (#[trigger] t[a]).frames@, t[a].frames@.len() as int, k) }
pub open spec fn used_by(m: Seq<ModuleEntry>, f: Seq<RawFrame>, n: int, k: usize) -> bool { exists|b: int| 0 <= b < n && owner(m, (#[trigger] f[b]).instruction_addr.0, f[b].addr_mode, k) }
pub proof fn used_more(m: Seq<ModuleEntry>, t: Seq<RawStacktrace>, n: int, k: usize) requires 0 <= n < t.len() ensures used(m, t, n + 1, k) == (used(m, t, n, k) || used_by(m, t[n].frames@, t[n].frames@.len() as int, k)) {}
pub proof fn used_by_more(m: Seq<ModuleEntry>, f: Seq<RawFrame>, n: int, k: usize) requires 0 <= n < f.len() ensures used_by(m, f, n + 1, k) == (used_by(m, f, n, k) || owner(m, f[n].instruction_addr.0, f[n].addr_mode, k)) {}
pub open spec fn owner(m: Seq<ModuleEntry>, addr: u64, mode: AddrMode, k: usize) -> bool { match found(m, addr, mode) { Some(i) => m[i].module_index == k, None => false } }
pub open spec fn fetched(e: ModuleEntry, l: ModuleLookup, s: SymCacheActor, p: PortablePdbCacheActor) -> CacheFile {
    match e.object_info.raw.ty {
        ObjectType::PeDotnet => { let d = p.file(FetchPortablePdbCache { identifier: identity_of(e.object_info.raw), sources: l.sources, scope: l.scope });
            CacheFile { file: match d.cache { Ok(c) => Ok(CacheFileEntry::PortablePdbCache(c)), Err(x) => Err(x) }, candidates: d.candidates, features: d.features } },
        _ => { let d = s.file(FetchSymCache { object_type: e.object_info.raw.ty, identifier: identity_of(e.object_info.raw), sources: l.sources, scope: l.scope });
            CacheFile { file: match d.cache { Ok(c) => Ok(CacheFileEntry::SymCache(c)), Err(x) => Err(x) }, candidates: d.candidates, features: d.features } },
    }
}
/// what becomes of a module: without a frame it is unused; otherwise it has what was found for its own identity
pub open spec fn after_fetch(e: ModuleEntry, u: bool, f: CacheFile) -> ModuleEntry {
    let o = e.object_info;
    if !u { ModuleEntry { object_info: CompleteObjectInfo { debug_status: ObjectFileStatus::Unused, ..o }, ..e } }
    else { ModuleEntry { object_info: CompleteObjectInfo { arch: match f.file { Ok(CacheFileEntry::SymCache(c)) => c.arch_of(), _ => Arch::unknown() }, features: union(o.features, f.features),
        candidates: o.candidates.merged(f.candidates), debug_status: status_of(f.file), ..o }, cache: f.file, ..e } }
}
/// before its file has arrived
pub open spec fn marked(e: ModuleEntry, u: bool) -> ModuleEntry { if u { e } else { ModuleEntry { object_info: CompleteObjectInfo { debug_status: ObjectFileStatus::Unused, ..e.object_info }, ..e } } }
pub open spec fn files(v: Seq<(usize, CacheFile)>) -> bool { true }
pub open spec fn asked<X>(v: Seq<(usize, X)>, n: int, i: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == i }
pub proof fn asked_more<X>(v: Seq<(usize, X)>, n: int, i: int) requires 0 <= n < v.len() ensures asked(v, n + 1, i) == (asked(v, n, i) || v[n].0 == i) {}
pub broadcast proof fn asked_pushed<X>(v: Seq<(usize, X)>, x: (usize, X), n: int, i: int) requires n == v.len() + 1 ensures #[trigger] asked(v.push(x), n, i) == (asked(v, v.len() as int, i) || x.0 == i) {
    let w = v.push(x);
    asked_more(w, v.len() as int, i);
    if asked(v, v.len() as int, i) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == i; assert(w[k].0 == i); }
    if asked(w, v.len() as int, i) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] w[k]).0 == i; assert(v[k].0 == i); }
}

// ---- looking the sources up ----------------------------------------------------------------------------------------
#[verifier::external_body] pub struct RemoteFile { s: u8 }
#[verifier::external_body] pub struct ObjectMetaHandle { s: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Filetypes { s: u8 }
pub struct FileType;
impl FileType { pub uninterp spec fn source_types() -> Filetypes; #[verifier::external_body] pub fn sources() -> (r: Filetypes) ensures r == Self::source_types() { unimplemented!() } }
//@item crates/symbolicator-service/src/objects/mod.rs ObjectPurpose derive=Clone, Copy
//@item crates/symbolicator-service/src/objects/mod.rs FindObject derive=
//@isub Arc<[SourceConfig]> ==> Sources
//@isub &'static [FileType] ==> Filetypes
//@item crates/symbolicator-service/src/objects/mod.rs FoundMeta derive=
//@isub Arc<ObjectMetaHandle> ==> ObjectMetaHandle
//@item crates/symbolicator-service/src/objects/mod.rs FindResult derive=
#[verifier::external_body] pub struct ObjectsActor { s: u8 }
impl Clone for ObjectsActor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ObjectsActor {
    pub uninterp spec fn finds(&self, q: FindObject) -> FindResult; pub uninterp spec fn object(&self, h: ObjectMetaHandle) -> CacheContents<ObjectHandle>;
    #[verifier::external_body] pub fn vp_find(&self, q: FindObject) -> (r: FindResult) ensures r == self.finds(q) { unimplemented!() }
    #[verifier::external_body] pub fn fetch(&self, h: ObjectMetaHandle) -> (r: CacheContents<ObjectHandle>) ensures r == self.object(h) { unimplemented!() }
}
/// some frame of the response belongs to module `k`
pub open spec fn shown(m: Seq<ModuleEntry>, t: Seq<CompleteStacktrace>, n: int, k: usize) -> bool { exists|a: int| 0 <= a < n && shown_by(m, (#[trigger] t[a]).frames@, t[a].frames@.len() as int, k) }
pub open spec fn shown_by(m: Seq<ModuleEntry>, f: Seq<SymbolicatedFrame>, n: int, k: usize) -> bool { exists|b: int| 0 <= b < n && owner(m, (#[trigger] f[b]).raw.instruction_addr.0, f[b].raw.addr_mode, k) }
pub open spec fn source_query(e: ModuleEntry, l: ModuleLookup) -> FindObject { FindObject { filetypes: FileType::source_types(), purpose: ObjectPurpose::Source, scope: l.scope, identifier: identity_of(e.object_info.raw), sources: l.sources } }
pub open spec fn sourced(e: ModuleEntry, l: ModuleLookup, o: ObjectsActor) -> (CacheContents<ObjectHandle>, AllObjectCandidates) {
    let f = o.finds(source_query(e, l));
    (match f.meta { Some(m) => match m.handle { Ok(h) => o.object(h), Err(x) => Err(x) }, None => Err(CacheError::NotFound) }, f.candidates)
}
pub open spec fn marked_source(e: ModuleEntry, u: bool) -> ModuleEntry { if u { e } else { ModuleEntry { object_info: CompleteObjectInfo { debug_status: ObjectFileStatus::Unused, ..e.object_info }, source_object: Err::<ObjectHandle, CacheError>(CacheError::NotFound), ..e } } }
/// what becomes of a module: one that no frame of the response belongs to is unused
pub open spec fn after_source(e: ModuleEntry, u: bool, f: (CacheContents<ObjectHandle>, AllObjectCandidates)) -> ModuleEntry {
    let o = e.object_info;
    if !u { marked_source(e, u) }
    else { ModuleEntry { object_info: CompleteObjectInfo { candidates: o.candidates.merged(f.1), features: ObjectFeatures { has_sources: o.features.has_sources || f.0 is Ok, ..o.features }, ..o }, source_object: f.0, ..e } }
}
pub open spec fn objects3(v: Seq<(usize, CacheContents<ObjectHandle>, AllObjectCandidates)>) -> bool { true }
pub open spec fn asked3<X, Y>(v: Seq<(usize, X, Y)>, n: int, i: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == i }
pub broadcast proof fn asked3_pushed<X, Y>(v: Seq<(usize, X, Y)>, x: (usize, X, Y), n: int, i: int) requires n == v.len() + 1 ensures #[trigger] asked3(v.push(x), n, i) == (asked3(v, v.len() as int, i) || x.0 == i) {
    let w = v.push(x);
    assert(w[v.len() as int].0 == x.0);
    if asked3(v, v.len() as int, i) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == i; assert(w[k].0 == i); }
    if asked3(w, n, i) { let k = choose|k: int| 0 <= k < n && (#[trigger] w[k]).0 == i; if k < v.len() { assert(v[k].0 == i); } }
}

/// what the lookups leave alone
pub open spec fn kept(a: ModuleLookup, b: ModuleLookup) -> bool {
    a.modules@.len() == b.modules@.len() && b.original_first_debug_file == a.original_first_debug_file
    && forall|i: int| 0 <= i < a.modules@.len() ==> (#[trigger] b.modules@[i]).object_info.raw == a.modules@[i].object_info.raw && b.modules@[i].module_index == a.modules@[i].module_index
}
/// every submitted module comes back once, in its place, as it was submitted except for a missing size
pub proof fn theorem(input: Seq<CompleteObjectInfo>, rw: RewriteRules, a: ModuleLookup, b: ModuleLookup, r: Seq<CompleteObjectInfo>)
    requires holds(a, input, rw), kept(a, b), in_order(b, r)
    ensures r.len() == input.len(), forall|i: int| 0 <= i < b.modules@.len() ==> { let k = (#[trigger] b.modules@[i]).module_index as int; let size = r[k].raw.image_size;
        0 <= k < r.len() && r[k].raw == (RawObjectInfo { image_size: size, ..input[k].raw }) && (size0(input[k]) != 0 ==> size == input[k].raw.image_size)
        && r[k].debug_status == b.modules@[i].object_info.debug_status && r[k].candidates == b.modules@[i].object_info.candidates },
        complete(b.modules@),
{
    let m = a.modules@; let n = b.modules@;
    assert(complete(n)) by { assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).module_index < n.len() by { assert(m[i].module_index < m.len()); }
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).module_index != (#[trigger] n[j]).module_index by { assert(m[i].module_index != m[j].module_index); } }
    assert forall|i: int| 0 <= i < n.len() implies { let k = (#[trigger] n[i]).module_index as int; let size = r[k].raw.image_size;
        0 <= k < r.len() && r[k].raw == (RawObjectInfo { image_size: size, ..input[k].raw }) && (size0(input[k]) != 0 ==> size == input[k].raw.image_size) && r[k].debug_status == n[i].object_info.debug_status && r[k].candidates == n[i].object_info.candidates } by {
        assert(r[n[i].module_index as int] == restored(b, i)); assert(m[i].module_index < m.len());
        if i > 0 { assert(m[i].object_info == filled(m, i, input[m[i].module_index as int])); }
    }
}
/// the lookups keep them
pub proof fn lookups_keep(a: ModuleLookup, b: ModuleLookup, e: Seq<bool>, f: Seq<CacheFile>)
    requires a.modules@.len() == b.modules@.len(), b.original_first_debug_file == a.original_first_debug_file, forall|i: int| 0 <= i < a.modules@.len() ==> #[trigger] b.modules@[i] == after_fetch(a.modules@[i], e[i], f[i])
    ensures kept(a, b), a.wf() ==> b.wf()
{}
pub proof fn sources_keep(a: ModuleLookup, b: ModuleLookup, e: Seq<bool>, f: Seq<(CacheContents<ObjectHandle>, AllObjectCandidates)>)
    requires a.modules@.len() == b.modules@.len(), b.original_first_debug_file == a.original_first_debug_file, forall|i: int| 0 <= i < a.modules@.len() ==> #[trigger] b.modules@[i] == after_source(a.modules@[i], e[i], f[i])
    ensures kept(a, b), a.wf() ==> b.wf()
{}

impl ModuleLookup {
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::fetch_caches async res=map
//@sub? fut . bind_hub ( Hub :: new_from_top ( Hub :: current ( ) ) ) ==> fut
//@sub? Default :: default ( ) ==> vp_no_arch ( )
//@sub? self . modules . get_mut ( idx ) ==> vp_get_mut ( & mut self . modules , idx )
//@spec
    requires old(self).wf()
    ensures final(self).modules@.len() == old(self).modules@.len(), final(self).original_first_debug_file == old(self).original_first_debug_file, final(self).scope == old(self).scope, final(self).sources == old(self).sources,
        forall|i: int| 0 <= i < old(self).modules@.len() ==> #[trigger] final(self).modules@[i] == after_fetch(old(self).modules@[i], used(old(self).modules@, stacktraces@, stacktraces@.len() as int, old(self).modules@[i].module_index), fetched(old(self).modules@[i], *old(self), symcache_actor, ppdb_cache_actor))
//@start
    let ghost vp_m0 = self.modules@; let ghost vp_t = stacktraces@;
//@loop 0 iter=ia
    invariant *self == *old(self), self.wf(), vp_m0 == self.modules@, vp_t == stacktraces@, ia.seq().len() == vp_t.len(), forall|i: int| 0 <= i < vp_t.len() ==> *#[trigger] ia.seq()[i] == vp_t[i],
        forall|k: usize| #[trigger] referenced_objects.has(k) == used(vp_m0, vp_t, ia.index@ as int, k),
//@loop 1 iter=ib
    invariant *self == *old(self), self.wf(), vp_m0 == self.modules@, ia.index@ < vp_t.len(), ib.seq().len() == vp_t[ia.index@ as int].frames@.len(), forall|i: int| 0 <= i < ib.seq().len() ==> *#[trigger] ib.seq()[i] == vp_t[ia.index@ as int].frames@[i],
        forall|k: usize| #[trigger] referenced_objects.has(k) == (used(vp_m0, vp_t, ia.index@ as int, k) || used_by(vp_m0, vp_t[ia.index@ as int].frames@, ib.index@ as int, k)),
//@loop 2
    invariant files(vp_acc@), vp_e <= self.modules@.len(), self.modules@.len() == vp_m0.len(), self.sources == old(self).sources, self.scope == old(self).scope, self.original_first_debug_file == old(self).original_first_debug_file, vp_m0 == old(self).modules@,
        forall|k: usize| #[trigger] referenced_objects.has(k) == used(vp_m0, vp_t, vp_t.len() as int, k),
        forall|i: int| 0 <= i < vp_e ==> #[trigger] self.modules@[i] == marked(vp_m0[i], referenced_objects.has(vp_m0[i].module_index)),
        forall|i: int| vp_e <= i < vp_m0.len() ==> #[trigger] self.modules@[i] == vp_m0[i],
        forall|n: int| 0 <= n < vp_acc@.len() ==> (#[trigger] vp_acc@[n]).0 < vp_e && vp_acc@[n].1 == fetched(vp_m0[vp_acc@[n].0 as int], *old(self), symcache_actor, ppdb_cache_actor),
        forall|n: int, q: int| 0 <= n < q < vp_acc@.len() ==> (#[trigger] vp_acc@[n]).0 < (#[trigger] vp_acc@[q]).0,
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] asked(vp_acc@, vp_acc@.len() as int, i) == (i < vp_e && referenced_objects.has(vp_m0[i].module_index)),
    decreases self.modules@.len() - vp_e
//@body 2
    broadcast use asked_pushed;
//@loop 3 iter=id
    invariant self.modules@.len() == vp_m0.len(), self.sources == old(self).sources, self.scope == old(self).scope, self.original_first_debug_file == old(self).original_first_debug_file, vp_m0 == old(self).modules@,
        forall|k: usize| #[trigger] referenced_objects.has(k) == used(vp_m0, vp_t, vp_t.len() as int, k),
        forall|n: int| 0 <= n < id.seq().len() ==> (#[trigger] id.seq()[n]).0 < vp_m0.len() && id.seq()[n].1 == fetched(vp_m0[id.seq()[n].0 as int], *old(self), symcache_actor, ppdb_cache_actor),
        forall|n: int, q: int| 0 <= n < q < id.seq().len() ==> (#[trigger] id.seq()[n]).0 < (#[trigger] id.seq()[q]).0,
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] asked(id.seq(), id.seq().len() as int, i) == referenced_objects.has(vp_m0[i].module_index),
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] self.modules@[i] == (if asked(id.seq(), id.index@ as int, i) { after_fetch(vp_m0[i], true, fetched(vp_m0[i], *old(self), symcache_actor, ppdb_cache_actor)) } else { marked(vp_m0[i], referenced_objects.has(vp_m0[i].module_index)) }),
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::fetch_sources async
//@sub? fut . bind_hub ( Hub :: new_from_top ( Hub :: current ( ) ) ) ==> fut
//@sub? self . modules . get_mut ( idx ) ==> vp_get_mut ( & mut self . modules , idx )
//@spec
    requires old(self).wf()
    ensures final(self).modules@.len() == old(self).modules@.len(), final(self).original_first_debug_file == old(self).original_first_debug_file, final(self).scope == old(self).scope, final(self).sources == old(self).sources,
        forall|i: int| 0 <= i < old(self).modules@.len() ==> #[trigger] final(self).modules@[i] == after_source(old(self).modules@[i], shown(old(self).modules@, stacktraces@, stacktraces@.len() as int, old(self).modules@[i].module_index), sourced(old(self).modules@[i], *old(self), objects))
//@start
    let ghost vp_m0 = self.modules@; let ghost vp_t = stacktraces@;
//@loop 0 iter=ia
    invariant *self == *old(self), self.wf(), vp_m0 == self.modules@, vp_t == stacktraces@, ia.seq().len() == vp_t.len(), forall|i: int| 0 <= i < vp_t.len() ==> *#[trigger] ia.seq()[i] == vp_t[i],
        forall|k: usize| #[trigger] referenced_objects.has(k) == shown(vp_m0, vp_t, ia.index@ as int, k),
//@loop 1 iter=ib
    invariant *self == *old(self), self.wf(), vp_m0 == self.modules@, ia.index@ < vp_t.len(), ib.seq().len() == vp_t[ia.index@ as int].frames@.len(), forall|i: int| 0 <= i < ib.seq().len() ==> *#[trigger] ib.seq()[i] == vp_t[ia.index@ as int].frames@[i],
        forall|k: usize| #[trigger] referenced_objects.has(k) == (shown(vp_m0, vp_t, ia.index@ as int, k) || shown_by(vp_m0, vp_t[ia.index@ as int].frames@, ib.index@ as int, k)),
//@loop 2
    invariant objects3(vp_acc@), vp_e <= self.modules@.len(), self.modules@.len() == vp_m0.len(), self.sources == old(self).sources, self.scope == old(self).scope, self.original_first_debug_file == old(self).original_first_debug_file, vp_m0 == old(self).modules@,
        forall|k: usize| #[trigger] referenced_objects.has(k) == shown(vp_m0, vp_t, vp_t.len() as int, k),
        forall|i: int| 0 <= i < vp_e ==> #[trigger] self.modules@[i] == marked_source(vp_m0[i], referenced_objects.has(vp_m0[i].module_index)),
        forall|i: int| vp_e <= i < vp_m0.len() ==> #[trigger] self.modules@[i] == vp_m0[i],
        forall|n: int| 0 <= n < vp_acc@.len() ==> (#[trigger] vp_acc@[n]).0 < vp_e && (vp_acc@[n].1, vp_acc@[n].2) == sourced(vp_m0[vp_acc@[n].0 as int], *old(self), objects),
        forall|n: int, q: int| 0 <= n < q < vp_acc@.len() ==> (#[trigger] vp_acc@[n]).0 < (#[trigger] vp_acc@[q]).0,
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] asked3(vp_acc@, vp_acc@.len() as int, i) == (i < vp_e && referenced_objects.has(vp_m0[i].module_index)),
    decreases self.modules@.len() - vp_e
//@body 2
    broadcast use asked3_pushed;
//@loop 3 iter=id
    invariant self.modules@.len() == vp_m0.len(), self.sources == old(self).sources, self.scope == old(self).scope, self.original_first_debug_file == old(self).original_first_debug_file, vp_m0 == old(self).modules@,
        forall|k: usize| #[trigger] referenced_objects.has(k) == shown(vp_m0, vp_t, vp_t.len() as int, k),
        forall|n: int| 0 <= n < id.seq().len() ==> (#[trigger] id.seq()[n]).0 < vp_m0.len() && (id.seq()[n].1, id.seq()[n].2) == sourced(vp_m0[id.seq()[n].0 as int], *old(self), objects),
        forall|n: int, q: int| 0 <= n < q < id.seq().len() ==> (#[trigger] id.seq()[n]).0 < (#[trigger] id.seq()[q]).0,
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] asked3(id.seq(), id.seq().len() as int, i) == referenced_objects.has(vp_m0[i].module_index),
        forall|i: int| 0 <= i < vp_m0.len() ==> #[trigger] self.modules@[i] == (if asked3(id.seq(), id.index@ as int, i) { after_source(vp_m0[i], true, sourced(vp_m0[i], *old(self), objects)) } else { marked_source(vp_m0[i], referenced_objects.has(vp_m0[i].module_index)) }),
//@body 3
    let ghost vp_k = id.seq()[id.index@ as int].0 as int;
    proof {
        assert(asked3(id.seq(), id.seq().len() as int, vp_k));
        assert(!asked3(id.seq(), id.index@ as int, vp_k));
        assert(self.modules@[vp_k] == vp_m0[vp_k]);
        assert forall|i: int| i != vp_k implies #[trigger] asked3(id.seq(), id.index@ + 1, i) == asked3(id.seq(), id.index@ as int, i) by {}
    }
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::new
//@sub? sources : Arc < [ SourceConfig ] > , ==> sources : Sources ,
//@sub? < I > ==>
//@sub? iter : I , ==> iter : Vec < CompleteObjectInfo > ,
//@sub? where I : IntoIterator < Item = CompleteObjectInfo > , ==>
//@sub? modules . sort_by_key ( | entry | entry . object_info . raw . image_addr . 0 ) ==> vp_sort_modules(&mut modules, |entry: &ModuleEntry| -> (k: u64) ensures k.val() == start(*entry) { entry.object_info.raw.image_addr.0 }, Ghost(|m: ModuleEntry| start(m) as int))
//@sub? modules . get_mut ( i ) ==> vp_get_mut(&mut modules, i)
//@sub? modules . first_mut ( ) ==> vp_get_mut(&mut modules, 0)
//@sub? std :: mem :: take ==> vp_take
//@ret r
//@spec
    ensures holds(r, iter@, rewrite_first_module), r.scope == scope, r.sources == sources
//@start
    let ghost vp_in = iter@;
    proof { assert(iter@.len() == iter.len()); }
//@loop 0 iter=it
    invariant it.seq() == vp_in, vp_in.len() <= usize::MAX, vp_acc@.len() == it.index@, vp_e == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] vp_acc@[i] == (ModuleEntry { module_index: i as usize, object_info: vp_in[i], cache: Err::<CacheFileEntry, CacheError>(CacheError::NotFound), source_object: Err::<ObjectHandle, CacheError>(CacheError::NotFound) }),
//@before if modules . len ( ) > 1
    let ghost vp_m = modules@;
    proof { assert(sorted(vp_m)); assert(complete(vp_m)); assert forall|i: int| 0 <= i < vp_m.len() implies (#[trigger] vp_m[i]).object_info == vp_in[vp_m[i].module_index as int] by {} }
//@loop 1 iter=it
    invariant modules@.len() == vp_m.len(), sorted(vp_m), modules@.len() > 1, it.seq().len() == vp_m.len() - 1, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k,
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] modules@[k]).object_info == filled(vp_m, k, vp_m[k].object_info) && modules@[k].module_index == vp_m[k].module_index && modules@[k].cache == vp_m[k].cache && modules@[k].source_object == vp_m[k].source_object,
        forall|k: int| it.index@ <= k < vp_m.len() ==> #[trigger] modules@[k] == vp_m[k],
//@body 1
    proof { assert(modules@[it.index@ as int] == vp_m[it.index@ as int]); assert(modules@[it.index@ + 1] == vp_m[it.index@ + 1]); assert(start(vp_m[it.index@ as int]) <= start(vp_m[it.index@ + 1])); }
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::into_inner
//@sub? self . modules . sort_by_key ( | entry | entry . module_index ) ==> vp_sort_modules(&mut self.modules, |entry: &ModuleEntry| -> (k: usize) ensures k.val() == entry.module_index { entry.module_index }, Ghost(|m: ModuleEntry| m.module_index as int))
//@sub? self . modules . first_mut ( ) ==> vp_get_mut(&mut self.modules, 0)
//@ret r
//@spec
    requires self.wf()
    ensures in_order(self, r@)
//@loop 0 iter=it
    invariant vp_acc@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] vp_acc@[i] == it.seq()[i].object_info,
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::add_candidate
//@sub? let mut modules = self . modules . iter_mut ( ) ; ==>
//@sub? modules . find ( | entry | entry . module_index == idx ) ==> vp_find_mut(&mut self.modules, |entry: &ModuleEntry| -> (b: bool) ensures b == (entry.module_index == idx) { entry.module_index == idx })
//@spec
    requires old(self).wf()
    ensures final(self).modules@.len() == old(self).modules@.len(), final(self).original_first_debug_file == old(self).original_first_debug_file,
        forall|i: int| 0 <= i < old(self).modules@.len() ==> #[trigger] final(self).modules@[i] == (if old(self).modules@[i].module_index == idx { let e = old(self).modules@[i];
            ModuleEntry { object_info: CompleteObjectInfo { candidates: e.object_info.candidates.merged_one(*candidate), ..e.object_info }, ..e } } else { old(self).modules@[i] })
//@end
}
}
fn main() {}
