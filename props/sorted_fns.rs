//@fn crates/symsorter/src/utils.rs get_unified_id
//@spec
    ensures r.is_ok() == sorted_id(*obj).is_some(), r.is_ok() ==> r.unwrap()@ =~= sorted_id(*obj).unwrap(),
//@start
    proof { reveal(sorted_id); }
//@end
//@fn crates/symsorter/src/utils.rs get_target_filename ren=into
//@spec
    ensures r.is_ok() == sorted_path(*obj).is_some(), r.is_ok() ==> r.unwrap().view() =~= sorted_path(*obj).unwrap(),
//@start
    proof { reveal_strlit("/"); }
//@end

