use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- dependencies (assumed) -------------------------------------------------------------------------
#[verifier::external_body] pub struct ArcStr { s: u8 }
//@item crates/symbolicator-service/src/types.rs Scope
//@isub Arc<str> ==> ArcStr
#[verifier::external_body] pub struct ObjectId { o: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DebugId { o: u8 }
#[verifier::external_body] pub struct SourceConfig { o: u8 }
#[verifier::external_body] pub struct FileType0 { o: u8 }
#[verifier::external_body] pub struct NamedTempFile { o: u8 }
#[verifier::external_body] pub struct DownloadService { o: u8 }
#[verifier::external_body] pub struct SourceIndexService { o: u8 }
#[verifier::external_body] pub struct CacheError { e: u8 }
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] pub fn vp_same<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }

// ---- whether a source is public is its configured flag; a Sentry source never is ---------------------
pub struct CommonSourceConfig { pub is_public: bool }
pub struct Conf { pub files: CommonSourceConfig }
pub struct FilesystemRemoteFile { pub source: Conf, pub u: u8 }
pub struct GcsRemoteFile { pub source: Conf, pub u: u8 }
pub struct HttpRemoteFile { pub source: Conf, pub u: u8 }
pub struct S3RemoteFile { pub source: Conf, pub u: u8 }
pub struct SentryRemoteFile { pub u: u8 }
//@item crates/symbolicator-sources/src/remotefile.rs RemoteFile
pub open spec fn configured_public(f: RemoteFile) -> bool { match f { RemoteFile::Sentry(_) => false, RemoteFile::Filesystem(x) => x.source.files.is_public, RemoteFile::Gcs(x) => x.source.files.is_public, RemoteFile::Http(x) => x.source.files.is_public, RemoteFile::S3(x) => x.source.files.is_public } }
impl RemoteFile {
//@fn crates/symbolicator-sources/src/remotefile.rs RemoteFile::is_public
//@ret r
//@spec
    ensures r == configured_public(*self)
//@end
}
/// the scope a file is cached under
pub open spec fn scope_for(asked: Scope, f: RemoteFile) -> Scope { if configured_public(f) { Scope::Global } else { asked } }

// ---- keys and caches (keys: C09) ---------------------------------------------------------------------
pub struct KeyV { pub scope: Scope, pub file: RemoteFile }
pub struct CacheKey { pub k: Ghost<KeyV> }
pub struct CacheKeyBuilder { pub scope: Ghost<Scope>, pub files: Ghost<Seq<RemoteFile>> }
impl CacheKey {
    #[verifier::external_body] pub fn from_scoped_file(scope: &Scope, file: &RemoteFile) -> (r: CacheKey) ensures r.k@ == (KeyV { scope: *scope, file: *file }) { unimplemented!() }
    #[verifier::external_body] pub fn scoped_builder(scope: &Scope) -> (r: CacheKeyBuilder) ensures r.scope@ == *scope, r.files@.len() == 0 { unimplemented!() }
}
impl CacheKeyBuilder { #[verifier::external_body] pub fn write_file_meta(&mut self, file: &RemoteFile) -> (r: Result<(), u8>) ensures r.is_ok(), final(self).scope == old(self).scope, final(self).files@ == old(self).files@.push(*file) { unimplemented!() } }
/// the contents were computed for, or found under, this key
pub uninterp spec fn came_from<I>(c: CacheContents<I>, k: KeyV) -> bool;
pub trait CacheItemRequest { type Item; spec fn fits(&self, k: KeyV) -> bool; }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Cacher<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(I)] pub struct CacheEntry<I> { t: core::marker::PhantomData<I> }
impl<I> CacheEntry<I> { pub uninterp spec fn key(&self) -> KeyV; #[verifier::external_body] pub fn into_contents(self) -> (r: CacheContents<I>) ensures came_from(r, self.key()) { unimplemented!() } }
impl<T: CacheItemRequest> Cacher<T> {
    /// what is computed for a key must be what the key names
    #[verifier::external_body] pub fn compute_memoized(&self, request: T, key: CacheKey) -> (r: CacheEntry<T::Item>)
        requires request.fits(key.k@)
        ensures r.key() == key.k@ { unimplemented!() }
}

// ---- objects -------------------------------------------------------------------------------------------
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ObjectFeatures { o: u8 }
#[verifier::external_body] pub struct ObjectHandle { o: u8 }
//@item crates/symbolicator-service/src/objects/meta_cache.rs FetchFileMetaRequest
//@isub Arc<Cacher<FetchFileDataRequest>> ==> Cacher<FetchFileDataRequest>
//@isub Arc<DownloadService> ==> DownloadService
//@item crates/symbolicator-service/src/objects/data_cache.rs FetchFileDataRequest
//@item crates/symbolicator-service/src/objects/meta_cache.rs ObjectMetaHandle
pub struct ObjectsActor { pub meta_cache: Cacher<FetchFileMetaRequest>, pub data_cache: Cacher<FetchFileDataRequest>, pub download_svc: DownloadService }
//@item crates/symbolicator-service/src/objects/mod.rs FoundMeta
//@isub Arc<ObjectMetaHandle> ==> ObjectMetaHandle
impl CacheItemRequest for FetchFileMetaRequest { type Item = ObjectMetaHandle; open spec fn fits(&self, k: KeyV) -> bool { k.scope == self.scope && k.file == self.file_source } }
impl CacheItemRequest for FetchFileDataRequest { type Item = ObjectHandle; open spec fn fits(&self, k: KeyV) -> bool { k.scope == self.0.scope && k.file == self.0.file_source } }
impl ObjectMetaHandle {
//@fn crates/symbolicator-service/src/objects/meta_cache.rs ObjectMetaHandle::cache_key
//@ret r
//@spec
    ensures r.k@ == (KeyV { scope: self.scope, file: self.file_source })
//@end
//@fn crates/symbolicator-service/src/objects/meta_cache.rs ObjectMetaHandle::cache_key_builder
//@ret r
//@spec
    ensures r.scope@ == self.scope, r.files@ =~= seq![self.file_source]
//@end
//@fn crates/symbolicator-service/src/objects/meta_cache.rs ObjectMetaHandle::scope as=scope_
//@ret r
//@spec
    ensures *r == self.scope
//@end
}
#[verifier::external_body] pub fn vp_load<T>(d: ByteView) -> CacheContents<T> { unimplemented!() }
#[verifier::external_body] pub struct ByteView { b: u8 }
impl FetchFileMetaRequest {
//@fn crates/symbolicator-service/src/objects/meta_cache.rs <CacheItemRequest for FetchFileMetaRequest>::load as=load
//@sub? ByteView < 'static > ==> ByteView
//@sub? Self :: Item ==> ObjectMetaHandle
//@sub? serde_json :: from_slice ( & data ) ==> vp_load ( data )
//@sub? Arc :: new ( ==> (
//@sub? . clone ( ) ==> . vp_cl ( )
//@ret r
//@spec
    ensures r.is_ok() ==> r->Ok_0.scope == self.scope && r->Ok_0.file_source == self.file_source
//@end
}
pub trait VpCl: Sized { fn vp_cl(&self) -> (r: Self) ensures r == *self; }
impl VpCl for Scope { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for RemoteFile { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for ObjectId { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl<T> VpCl for Cacher<T> { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for DownloadService { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for CacheKey { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for FetchFileMetaRequest { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl ObjectHandle { #[verifier::external_body] pub fn object(&self) -> VpObject { unimplemented!() } }
#[verifier::external_body] pub struct VpObject { o: u8 }
#[verifier::external_body] pub fn vp_write_meta(f: &mut NamedTempFile, o: VpObject) -> CacheContents { unimplemented!() }
pub open spec fn metas_ok(ms: Seq<FoundMeta>, fs: Seq<RemoteFile>, scope: Scope) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).file_source == fs[i] && came_from(ms[i].handle, KeyV { scope: scope_for(scope, fs[i]), file: fs[i] }) }
impl ObjectsActor {
//@fn crates/symbolicator-service/src/objects/mod.rs ObjectsActor::fetch async
//@sub? Arc < ObjectMetaHandle > ==> & ObjectMetaHandle
//@sub? Arc < ObjectHandle > ==> ObjectHandle
//@sub? . clone ( ) ==> . vp_cl ( )
//@ret r
//@spec
    ensures came_from(r, KeyV { scope: file_handle.scope, file: file_handle.file_source })
//@end
//@fn crates/symbolicator-service/src/objects/mod.rs ObjectsActor::fetch_file_metas async
//@sub? . bind_hub ( Hub :: new_from_top ( Hub :: current ( ) ) ) ==>
//@sub? . clone ( ) ==> . vp_cl ( )
//@ret r
//@spec
    ensures r@.len() == file_sources@.len(),
        metas_ok(r@, file_sources@, scope)
//@loop 0 iter=it
    invariant it.seq() == file_sources@, vp_acc@.len() == it.index@,
        metas_ok(vp_acc@, file_sources@, scope)
//@end
}

// ---- listing files (assumed: any files of the sources) ------------------------------------------------
pub mod download { use super::*; #[verifier::external_body] pub fn list_files(d: &DownloadService, i: &SourceIndexService, s: &[SourceConfig], t: &[FileType], o: &ObjectId) -> Vec<RemoteFile> { unimplemented!() } }
//@item crates/symbolicator-sources/src/types.rs FileType
#[verifier::external_body] pub fn vp_uuid(u: DebugId) -> ObjectId { unimplemented!() }
/// the item was found under the key of some file, in the scope that file belongs to
pub open spec fn of_its_scope<I>(r: CacheContents<I>, scope: Scope) -> bool { exists|k: KeyV| #[trigger] came_from(r, k) && k.scope == scope_for(scope, k.file) }

pub open spec fn entries_ok<I>(es: Seq<CacheEntry<I>>, scope: Scope) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).key().scope == scope_for(scope, es[i].key().file) }
pub mod sourcefiles { use super::*;
#[verifier::external_body] pub struct ByteViewString { b: u8 }
//@item crates/symbolicator-service/src/caches/sourcefiles.rs SourceFilesCache
//@isub Arc<DownloadService> ==> DownloadService
//@item crates/symbolicator-service/src/caches/sourcefiles.rs FetchFileRequest
//@isub Arc<DownloadService> ==> DownloadService
impl CacheItemRequest for FetchFileRequest { type Item = ByteViewString; open spec fn fits(&self, k: KeyV) -> bool { k.file == self.file } }
impl SourceFilesCache {
//@fn crates/symbolicator-service/src/caches/sourcefiles.rs SourceFilesCache::fetch_file async
//@sub? Arc :: clone ( & self . download_svc ) ==> self . download_svc . vp_cl ( )
//@sub? . clone ( ) ==> . vp_cl ( )
//@ret r
//@spec
    ensures r.key() == (KeyV { scope: *scope, file: file })
//@end
}
}
pub mod il2cpp { use super::*;
#[verifier::external_body] pub struct Il2cppHandle { b: u8 }
//@item crates/symbolicator-native/src/caches/il2cpp.rs FetchFileRequest
//@isub Arc<DownloadService> ==> DownloadService
pub struct Il2cppService { pub cache: Cacher<FetchFileRequest>, pub download_svc: DownloadService, pub source_index_svc: SourceIndexService }
impl CacheItemRequest for FetchFileRequest { type Item = Il2cppHandle; open spec fn fits(&self, k: KeyV) -> bool { k.file == self.file_source } }
impl Il2cppService {
//@fn crates/symbolicator-native/src/caches/il2cpp.rs Il2cppService::fetch_line_mapping async
//@sub? . bind_hub ( hub ) ==>
//@sub? let hub = Hub :: new_from_top ( Hub :: current ( ) ) ; ==>
//@sub? Arc < [ SourceConfig ] > ==> Vec < SourceConfig >
//@sub? . clone ( ) ==> . vp_cl ( )
//@drop? hub . configure_scope
//@ret r
//@spec
    ensures r is Some ==> of_its_scope::<Il2cppHandle>(Ok(r->Some_0), scope)
//@loop 0 iter=it
    invariant entries_ok::<Il2cppHandle>(vp_acc@, scope)
//@loop 1 iter=jt
    invariant entries_ok::<Il2cppHandle>(jt.seq(), scope), vp_acc is Some ==> of_its_scope::<Il2cppHandle>(Ok(vp_acc->Some_0), scope)
//@end
}
}
pub mod bitcode { use super::*;
#[verifier::external_body] pub struct CacheHandle { b: u8 }
//@item crates/symbolicator-native/src/caches/bitcode.rs AuxDifKind derive=Clone,Copy
//@item crates/symbolicator-native/src/caches/bitcode.rs FetchFileRequest
//@isub Arc<DownloadService> ==> DownloadService
pub struct BitcodeService { pub cache: Cacher<FetchFileRequest>, pub download_svc: DownloadService, pub source_index_svc: SourceIndexService }
impl CacheItemRequest for FetchFileRequest { type Item = CacheHandle; open spec fn fits(&self, k: KeyV) -> bool { k.file == self.file_source } }
impl BitcodeService {
//@fn crates/symbolicator-native/src/caches/bitcode.rs BitcodeService::fetch_file_from_all_sources async
//@sub? . bind_hub ( hub ) ==>
//@sub? let hub = Hub :: new_from_top ( Hub :: current ( ) ) ; ==>
//@sub? Arc < [ SourceConfig ] > ==> Vec < SourceConfig >
//@sub? Arc < CacheHandle > ==> CacheHandle
//@sub? uuid . into ( ) ==> vp_uuid ( uuid )
//@sub? . clone ( ) ==> . vp_cl ( )
//@drop? hub . configure_scope
//@ret r
//@spec
    ensures r is Some ==> of_its_scope::<CacheHandle>(Ok(r->Some_0), scope)
//@loop 0 iter=it
    invariant entries_ok::<CacheHandle>(vp_acc@, scope)
//@loop 1 iter=jt
    invariant entries_ok::<CacheHandle>(jt.seq(), scope), vp_acc is Some ==> of_its_scope::<CacheHandle>(Ok(vp_acc->Some_0), scope)
//@end
}
}
}
fn main() {}
