//@fn crates/symbolicator-sources/src/types.rs valid_file_name ren=len,is_empty
//@sub? $b.contains(|$c: char| $c.is_control()) ==> vp_any_control($b)
//@spec
    ensures oview(r) == (if file_ok(file_name@) { Some(base_name(file_name@)) } else { None::<Str> }),
            r.is_some() ==> !has_char(r.unwrap()@, '/') && !has_char(r.unwrap()@, '\\'),
//@start
    proof { reveal_strlit(""); reveal_strlit("."); reveal_strlit(".."); }
//@end
impl ObjectId {
//@fn crates/symbolicator-sources/src/types.rs ObjectId::validated_code_file_basename
//@spec
    ensures oview(r) == file_name_of(self.code_file),
            r.is_some() ==> !has_char(r.unwrap()@, '/') && !has_char(r.unwrap()@, '\\'),
//@end
//@fn crates/symbolicator-sources/src/types.rs ObjectId::validated_debug_file_basename
//@spec
    ensures oview(r) == file_name_of(self.debug_file),
            r.is_some() ==> !has_char(r.unwrap()@, '/') && !has_char(r.unwrap()@, '\\'),
//@end
}
