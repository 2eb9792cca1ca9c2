#[verifier::external_body]
pub fn vp_opt_vec(o: Option<String>) -> (r: Vec<String>) ensures vview(r@) =~= one(osview(o)), r@.len() == (if o.is_some() { 1nat } else { 0nat }) { o.into_iter().collect() }

//@fn crates/symbolicator-sources/src/paths.rs get_gdb_path ren=len
//@spec
    ensures oeq(osview(r), p_gdb(*identifier)),
//@start
    proof { reveal(p_gdb); }
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_mach_uuid
//@sub? $c.as_str().parse().ok() ==> vp_uuid_parse($c.as_str())
//@spec
    ensures r == mach_uuid(*identifier),
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_lldb_path res=ok
//@spec
    ensures oeq(osview(r), p_lldb(*identifier)),
//@start
    proof { reveal(p_lldb); }
//@loop 0
    invariant slice@.len() == 16, 0 <= vp_i0 <= 16, path@ =~= lldb_text(slice@, vp_i0 as int),
    decreases 16 - vp_i0,
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_pdb_symstore_path
//@sub? Cow:: ==> VpCow::
//@spec
    ensures oeq(osview(r), p_pdb(*identifier, ssqp_casing)),
//@start
    proof { reveal(p_pdb); }
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_pe_symstore_path
//@sub? Cow:: ==> VpCow::
//@spec
    ensures oeq(osview(r), p_pe(*identifier, ssqp_casing)),
//@start
    proof { reveal(p_pe); }
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_breakpad_path
//@spec
    ensures oeq(osview(r), p_breakpad(*identifier)),
//@start
    proof { reveal(breakpad_stem); }
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_native_paths ren=len
//@spec
    ensures vview(r@) =~= p_native(filetype, *identifier),
//@start
    broadcast use ax::lemma_cut_all;
    proof { reveal_strlit(".sym"); }
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_symstore_path
//@sub? Cow:: ==> VpCow::
//@spec
    ensures oeq(osview(r), p_symstore(filetype, *identifier, ssqp_casing)),
    decreases (if filetype == FileType::SourceBundle { 1nat } else { 0nat }),
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_symstore_index2_path
//@spec
    ensures oeq(osview(r), p_index2(filetype, *identifier)),
//@start
    broadcast use ax::lemma_two;
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_debuginfod_id ren=is_empty
//@spec
    ensures oview(r) == (match code_of(*identifier) { Some(c) if c.len() > 0 => Some(c), _ => None::<Str> }),
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_debuginfod_path
//@spec
    ensures oeq(osview(r), p_debuginfod(filetype, *identifier)),
//@end
