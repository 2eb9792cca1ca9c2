use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayoutType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs FilenameCasing derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayout derive=Structural, PartialEq, Eq, Clone, Copy
//@include ../paths_spec.rs
//@include ../basename.rs
//@include ../paths_fns.rs
//@include ../paths_unified.rs
//@fn crates/symbolicator-sources/src/paths.rs get_slashsymbols_path
//@spec
    ensures oeq(osview(r), p_slash(*identifier)),
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_directory_paths
//@spec
    ensures vview(r@) =~= all_paths(directory_layout, filetype, *identifier),
//@before let mut vp_i0
    let ghost base = paths@;
//@loop 0
    invariant
        vp_i0_n == base.len(), paths@.len() == base.len(), vp_i0 <= vp_i0_n,
        forall|k: int| 0 <= k < vp_i0 ==> (#[trigger] paths@[k])@ =~= cased(directory_layout.casing, base[k]@),
        forall|k: int| vp_i0 <= k < base.len() ==> paths@[k] == base[k],
    decreases vp_i0_n - vp_i0,
//@before? let mut vp_acc
    let ghost cs = paths@;
    proof { assert(vview(cs) =~= Seq::new(base.len(), |k: int| cased(directory_layout.casing, vview(base)[k]))); }
//@loop 1 iter=it
    invariant
        vview(vp_acc@) =~= with_compressed(vview(cs).take(it.index@ as int)),
        it.seq() == cs, vp_acc@.len() == 2 * it.index@,
        forall|k: int| 0 <= k < vview(cs).len() ==> vview(cs).take(k + 1).drop_last() =~= #[trigger] vview(cs).take(k) && vview(cs).take(k + 1).last() == vview(cs)[k],
//@end
}
fn main() {}
