//@fn crates/symbolicator-sources/src/paths.rs get_search_target_id
//@sub? Cow<str> ==> VpCow<'_>
//@sub? Cow:: ==> VpCow::
//@spec
    ensures (match r { Some(c) => Some(c.view()), None => None::<Str> }) == target_id(filetype, *identifier),
    decreases (if filetype == FileType::SourceBundle || filetype == FileType::Breakpad || filetype == FileType::Il2cpp { 1nat } else { 0nat }),
//@end
//@fn crates/symbolicator-sources/src/paths.rs get_unified_path
//@spec
    ensures oeq(osview(r), p_unified(filetype, *identifier)),
//@end
