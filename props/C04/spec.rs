use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@include ../globs.rs
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayoutType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs FilenameCasing derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayout derive=Structural, PartialEq, Eq, Clone, Copy
//@include ../paths_spec.rs
//@item crates/symbolicator-sources/src/sources.rs CommonSourceConfig
/// the contract of get_directory_paths is discharged by C01, that of is_allowed by C03, that of SourceIndex::contains by C05
#[verifier::external_body]
pub fn get_directory_paths(directory_layout: DirectoryLayout, filetype: FileType, identifier: &ObjectId) -> (r: Vec<String>)
    ensures vview(r@) =~= all_paths(directory_layout, filetype, *identifier) { unimplemented!() }
impl SourceFilters {
    #[verifier::external_body]
    pub fn is_allowed(&self, object_id: &ObjectId, filetype: FileType) -> (r: bool) ensures r == allowed(*self, *object_id, filetype) { unimplemented!() }
}
pub struct SourceIndex { x: u8 }
impl SourceIndex {
    pub uninterp spec fn lists(&self, p: Str) -> bool;
    #[verifier::external_body]
    pub fn vp_contains(&self, p: &str) -> (r: bool) ensures r == self.lists(p@) { unimplemented!() }
}
/// std::slice::Iter over file types (R7)
pub struct VpIter<'a> { s: std::slice::Iter<'a, FileType> }
impl<'a> VpIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<FileType>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a FileType>)
        ensures old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r.is_some() && *r.unwrap() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) { self.s.next() }
}
pub trait VpSliceIter { fn vp_iter(&self) -> VpIter<'_>; }
impl VpSliceIter for [FileType] {
    #[verifier::external_body]
    fn vp_iter(&self) -> (r: VpIter<'_>) ensures r.rest() == self@ { VpIter { s: self.iter() } }
}
//@item crates/symbolicator-sources/src/remotefile.rs SourceLocation
impl SourceLocation {
    #[verifier::external_body]
    pub fn new(loc: String) -> (r: SourceLocation) ensures r.0@ == loc@ { SourceLocation(loc) }
}
//@item crates/symbolicator-sources/src/remotefile.rs SourceLocationIter
//@isub std::slice::Iter<'a, FileType> ==> VpIter<'a>

pub open spec fn rev(s: Seq<Str>) -> Seq<Str> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn listed(x: Option<&SourceIndex>, s: Seq<Str>) -> Seq<Str>
    decreases s.len()
{
    match x { None => s, Some(i) => if s.len() == 0 { s } else { let r = listed(x, s.drop_last()); if i.lists(s.last()) { r.push(s.last()) } else { r } } }
}
/// the locations of one file type, in the order they are to be tried
pub open spec fn of_type(f: SourceFilters, l: DirectoryLayout, x: Option<&SourceIndex>, i: ObjectId, t: FileType) -> Seq<Str> {
    if allowed(f, i, t) { rev(listed(x, all_paths(l, t, i))) } else { Seq::empty() }
}
pub open spec fn of_types(f: SourceFilters, l: DirectoryLayout, x: Option<&SourceIndex>, i: ObjectId, ts: Seq<FileType>) -> Seq<Str>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() } else { of_type(f, l, x, i, ts[0]) + of_types(f, l, x, i, ts.skip(1)) }
}
pub open spec fn remaining(s: SourceLocationIter<'_>) -> Seq<Str> {
    rev(vview(s.next@)) + of_types(*s.filters, s.layout, s.index, *s.object_id, s.filetypes.rest())
}
impl<'a> SourceLocationIter<'a> {
//@fn crates/symbolicator-sources/src/remotefile.rs SourceLocationIter::new ren=iter
//@spec
    ensures remaining(r) =~= of_types(config.filters, config.layout, index, *object_id, filetypes@),
//@end
}
impl SourceLocationIter<'_> {
//@fn crates/symbolicator-sources/src/remotefile.rs <Iterator for SourceLocationIter>::next
//@sub? Self::Item ==> SourceLocation
//@spec
    ensures
        remaining(*old(self)).len() == 0 ==> r.is_none(),
        remaining(*old(self)).len() > 0 ==> r.is_some() && r.unwrap().0@ =~= remaining(*old(self))[0],
        remaining(*old(self)).len() > 0 ==> remaining(*final(self)) =~= remaining(*old(self)).skip(1),
        r.is_none() ==> remaining(*final(self)).len() == 0,
//@loop 0
    invariant remaining(*self) =~= remaining(*old(self)), self.filters == old(self).filters, self.layout == old(self).layout, self.index == old(self).index, self.object_id == old(self).object_id,
    decreases self.filetypes.rest().len(),
//@loop 1 iter=it
    invariant it.seq() == vp_all@, vview(vp_kept@) =~= listed(self.index, vview(vp_all@).take(it.index@ as int)), self.index == Some(index),
       forall|k: int| 0 <= k < vp_all@.len() ==> vview(vp_all@).take(k + 1).drop_last() =~= #[trigger] vview(vp_all@).take(k) && vview(vp_all@).take(k + 1).last() == vview(vp_all@)[k],
//@end
}
}
fn main() {}
