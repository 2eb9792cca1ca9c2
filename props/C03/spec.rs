use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@include ../globs.rs
pub trait VpRepl { fn vp_replace(&self, a: char, b: &str) -> String; }
impl VpRepl for str {
    #[verifier::external_body]
    fn vp_replace(&self, a: char, b: &str) -> (r: String) ensures b@.len() == 1 ==> r@ =~= subst(self@, a, b@[0]) { unimplemented!() }
}
//@fn crates/symbolicator-sources/src/paths.rs matches_path_patterns
//@inner canonicalize_path
    ensures r@ =~= subst(s@, '\\', '/'),
//@spec
    ensures r == paths_ok(*object_id, patterns@),
//@loop 0 iter=it
    invariant it.seq().len() == patterns@.len(), forall|k: int| 0 <= k < patterns@.len() ==> *(#[trigger] it.seq()[k]) == patterns@[k],
        patterns@.len() > 0,
        forall|k: int| 0 <= k < it.index@ ==> !hits(#[trigger] patterns@[k], *object_id),
//@end
impl SourceFilters {
//@fn crates/symbolicator-sources/src/sources.rs SourceFilters::is_allowed
//@sub? paths :: matches_path_patterns ==> matches_path_patterns
//@spec
    ensures r == allowed(*self, *object_id, filetype),
//@end
}
}
fn main() {}
