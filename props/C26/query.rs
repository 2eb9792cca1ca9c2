use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
pub enum CacheError { NotFound, Other }
pub type CacheContents<T = ()> = Result<T, CacheError>;
#[verifier::external_body] pub struct RemoteFileUri { s: String }
#[verifier::external_body] pub struct RemoteFile { s: String }
impl RemoteFile { pub uninterp spec fn at(&self) -> RemoteFileUri; #[verifier::external_body] pub fn uri(&self) -> (r: RemoteFileUri) ensures r == self.at() { unimplemented!() } }
#[verifier::external_body] pub struct DebugId { s: u8 }
#[verifier::external_body] pub struct SentrySourceConfig { s: u8 }
impl SentrySourceConfig { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Scope {}
pub struct SentryFileId { }
#[verifier::external_body] pub struct ArtifactBundle { s: u8 }
//@item crates/symbolicator-js/src/interface.rs ResolvedWith derive=Clone,Copy,PartialEq,Eq
// ---- headers: pairs in the order of their names, and what becomes of pairs ----
#[verifier::external_body] pub struct ArtifactHeaders { s: u8 }
pub uninterp spec fn collected(v: Seq<(Str, Str)>) -> ArtifactHeaders;
impl ArtifactHeaders { pub uninterp spec fn pairs(&self) -> Seq<(Str, Str)>;
    #[verifier::external_body] pub fn vp_vec(self) -> (r: Vec<(String, String)>) ensures views(r@) == self.pairs() { unimplemented!() } }
pub open spec fn views(v: Seq<(String, String)>) -> Seq<(Str, Str)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
#[verifier::external_body] pub fn vp_map(v: Vec<(String, String)>) -> (r: ArtifactHeaders) ensures r == collected(views(v@)) { unimplemented!() }
pub open spec fn lowered(h: ArtifactHeaders) -> ArtifactHeaders { collected(h.pairs().map_values(|p: (Str, Str)| (s_lower(p.0), p.1))) }
//@item crates/symbolicator-js/src/api_lookup.rs JsLookupResult derive=
//@item crates/symbolicator-js/src/lookup.rs IndividualArtifact derive=
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { v: Vec<T> }
impl<T> BTreeSet<T> { pub uninterp spec fn n(&self) -> nat; #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() } }
/// a lookup (C32) of these ids and names, for a release and a distribution
pub uninterp spec fn found(s: SentrySourceConfig, d: BTreeSet<DebugId>, f: BTreeSet<String>, release: Option<Str>, dist: Option<Str>, r: CacheContents<Vec<JsLookupResult>>) -> bool;
pub open spec fn optview(o: Option<&str>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn text_of(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body] pub fn vp_deref(o: &Option<String>) -> (r: Option<&str>) ensures optview(r) == text_of(*o) { unimplemented!() }
pub struct SentryLookupApi {}
impl SentryLookupApi { #[verifier::external_body] pub fn lookup_js_artifacts(&self, s: SentrySourceConfig, d: BTreeSet<DebugId>, f: BTreeSet<String>, release: Option<&str>, dist: Option<&str>) -> (r: CacheContents<Vec<JsLookupResult>>)
    ensures found(s, d, f, optview(release), optview(dist), r) { unimplemented!() } }
// ---- what is known ----
#[verifier::external_body] pub struct Artifacts { s: u8 }
impl Artifacts { pub uninterp spec fn m(&self) -> Map<Str, IndividualArtifact>;
    #[verifier::external_body] pub fn vp_has(&self, k: &String) -> (r: bool) ensures r == self.m().contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_insert(&mut self, k: String, v: IndividualArtifact) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures (r == 0) == (self.m() == Map::<Str, IndividualArtifact>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &String) -> (r: Option<IndividualArtifact>) ensures final(self).m() == old(self).m().remove(k@) { unimplemented!() } }
pub type Opened = CacheContents<(ArtifactBundle, ResolvedWith)>;
#[verifier::external_body] pub struct ArtifactBundles { s: u8 }
impl ArtifactBundles { pub uninterp spec fn m(&self) -> Map<RemoteFileUri, Opened>;
    #[verifier::external_body] pub fn contains_key(&self, k: &RemoteFileUri) -> (r: bool) ensures r == self.m().contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: RemoteFileUri, v: Opened) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() } }
/// what was fetched from there
pub uninterp spec fn fetched(f: RemoteFile) -> CacheContents<ArtifactBundle>;
pub open spec fn with(b: CacheContents<ArtifactBundle>, w: ResolvedWith) -> Opened { match b { Ok(b) => Ok((b, w)), Err(e) => Err(e) } }
pub ghost struct Known { pub arts: Map<Str, IndividualArtifact>, pub bundles: Map<RemoteFileUri, Opened> }
/// the first of two results about one address, or one bundle, stands
pub open spec fn fresh(k: Known, j: JsLookupResult) -> bool { match j { JsLookupResult::IndividualArtifact { abs_path, .. } => !k.arts.contains_key(abs_path@), JsLookupResult::ArtifactBundle { remote_file, .. } => !k.bundles.contains_key(remote_file.at()) } }
pub open spec fn learn(k: Known, j: JsLookupResult) -> Known {
    if !fresh(k, j) { k } else { match j {
        JsLookupResult::IndividualArtifact { remote_file, abs_path, headers, resolved_with } => Known { arts: k.arts.insert(abs_path@, IndividualArtifact { remote_file, headers: lowered(headers), resolved_with }), ..k },
        JsLookupResult::ArtifactBundle { remote_file, resolved_with } => Known { bundles: k.bundles.insert(remote_file.at(), with(fetched(remote_file), resolved_with)), ..k } } } }
pub open spec fn after(k: Known, v: Seq<JsLookupResult>) -> Known decreases v.len() { if v.len() == 0 { k } else { learn(after(k, v.drop_last()), v.last()) } }
pub open spec fn news(k: Known, v: Seq<JsLookupResult>) -> bool decreases v.len() { if v.len() == 0 { false } else { news(k, v.drop_last()) || fresh(after(k, v.drop_last()), v.last()) } }
pub struct ArtifactFetcher { pub individual_artifacts: Artifacts, pub artifact_bundles: ArtifactBundles, pub scope: Scope, pub source: SentrySourceConfig, pub api_lookup: SentryLookupApi, pub release: Option<String>, pub dist: Option<String> }
impl ArtifactFetcher {
    pub open spec fn k(&self) -> Known { Known { arts: self.individual_artifacts.m(), bundles: self.artifact_bundles.m() } }
    pub open spec fn kept(&self, o: Self) -> bool { self.source == o.source && self.release == o.release && self.dist == o.dist }
    #[verifier::external_body] pub fn fetch_artifact_bundle(&self, f: RemoteFile) -> (r: CacheContents<ArtifactBundle>) ensures r == fetched(f) { unimplemented!() }
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::ensure_artifact_bundle async res=map stub=fetch_artifact_bundle,contains_key
//@ret r
//@spec
    ensures ({ let k = old(self).k(); let new = !k.bundles.contains_key(remote_file.at()); r == new && final(self).kept(*old(self))
        && final(self).k() == (if new { Known { bundles: k.bundles.insert(remote_file.at(), with(fetched(remote_file), resolved_with)), ..k } } else { k }) })
//@end
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-js/src/lookup.rs ArtifactFetcher::query_sentry_for_files async stub=lookup_js_artifacts
//@drop? self . metrics
//@sub? self . release . as_deref ( ) ==> vp_deref ( & self . release )
//@sub? self . dist . as_deref ( ) ==> vp_deref ( & self . dist )
//@sub? self . individual_artifacts . entry ( abs_path ) . or_insert_with ( || { ==> if ! self . individual_artifacts . vp_has ( & abs_path ) { let vp_new = { {
//@sub? IndividualArtifact { remote_file , headers , resolved_with , } } ) ; ==> IndividualArtifact { remote_file , headers : vp_map ( headers ) , resolved_with , } } } ; self . individual_artifacts . vp_insert ( abs_path , vp_new ) ; }
//@sub? headers . into_iter ( ) ==> headers . vp_vec ( ) . into_iter ( )
//@sub? did_get_new_data |= self . ensure_artifact_bundle ( remote_file , resolved_with ) . await ; ==> if self . ensure_artifact_bundle ( remote_file , resolved_with ) { did_get_new_data = true ; }
//@ret r
//@spec
    ensures final(self).kept(*old(self)),
        debug_ids.n() == 0 && (file_stems.n() == 0 || old(self).release is None) ==> !r && *final(self) == *old(self),
        !(debug_ids.n() == 0 && (file_stems.n() == 0 || old(self).release is None)) ==> exists|a: CacheContents<Vec<JsLookupResult>>| #[trigger] found(old(self).source, debug_ids, file_stems, text_of(old(self).release), text_of(old(self).dist), a)
            && match a { Ok(v) => final(self).k() == after(old(self).k(), v@) && r == news(old(self).k(), v@), Err(_) => !r && final(self).k() == old(self).k() }
//@loop 0 iter=it
    invariant it.seq() == all, self.kept(*old(self)), self.k() == after(old(self).k(), all.take(it.index@ as int)), did_get_new_data == news(old(self).k(), all.take(it.index@ as int))
//@body 0
    assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@ as int));
//@loop 1 iter=ih
    invariant views(ih.seq()) == hs, ih.index@ <= hs.len(), views(vp_acc@).len() == ih.index@, forall|i: int| 0 <= i < ih.index@ ==> #[trigger] views(vp_acc@)[i] == (s_lower(hs[i].0), hs[i].1)
//@body 1
    assert(hs[ih.index@ as int] == (vp_p.0@, vp_p.1@));
    assert forall|v: Seq<(String, String)>, p: (String, String)| #[trigger] views(v.push(p)) == views(v).push((p.0@, p.1@)) by { assert(views(v.push(p)) =~= views(v).push((p.0@, p.1@))); }
//@before? let headers =
    let ghost hs = headers.pairs();
//@before? IndividualArtifact { remote_file , headers : vp_map
    assert(hs.take(hs.len() as int) =~= hs); assert(views(headers@) =~= hs.map_values(|p: (Str, Str)| (s_lower(p.0), p.1)));
//@before? for file in results
    let ghost all = results@; assert(all.take(all.len() as int) =~= all);
//@end
}
}
fn main() {}
