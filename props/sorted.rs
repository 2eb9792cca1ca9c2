/// the identifier an object is sorted under
#[verifier::opaque]
pub open spec fn sorted_id(o: Object) -> Option<Str> {
    match o.code() {
        Some(c) if o.format() != FileFormat::Pe => Some(c.view()),
        _ => if is_nil(o.dbg()) { None } else { Some(s_lower(breakpad_of(o.dbg()))) },
    }
}
pub open spec fn sorted_suffix(o: Object) -> Option<Str> {
    match o.okind() {
        ObjectKind::Debug => Some("debuginfo"@),
        ObjectKind::Sources if o.format() == FileFormat::SourceBundle => Some("sourcebundle"@),
        ObjectKind::Library | ObjectKind::Executable => Some("executable"@),
        _ => None,
    }
}
pub open spec fn sorted_path(o: Object) -> Option<Str> {
    match (sorted_id(o), sorted_suffix(o)) {
        (Some(id), Some(s)) => match bound_at(id, 2) { Some(k) => Some(id.subrange(0, k) + "/"@ + id.subrange(k, id.len() as int) + "/"@ + s), None => None },
        _ => None,
    }
}
