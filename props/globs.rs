// glob (dependency): assumed contract
pub struct MatchOptions { pub case_sensitive: bool, pub require_literal_separator: bool, pub require_literal_leading_dot: bool }
pub struct Glob { p: String }
pub uninterp spec fn glob_match(g: Glob, s: Str, o: MatchOptions) -> bool;
impl Glob {
    #[verifier::external_body]
    pub fn matches_with(&self, s: &str, o: MatchOptions) -> (r: bool) ensures r == glob_match(*self, s@, o) { unimplemented!() }
}
/// pattern matching ignores case, a wildcard also crosses separators and leading dots, `\` reads as `/`
pub open spec fn pat_matches(g: Glob, path: Str) -> bool {
    glob_match(g, subst(path, '\\', '/'), MatchOptions { case_sensitive: false, require_literal_separator: false, require_literal_leading_dot: false })
}
pub open spec fn hits(g: Glob, i: ObjectId) -> bool {
    (match i.code_file { Some(f) => pat_matches(g, f@), None => false }) || (match i.debug_file { Some(f) => pat_matches(g, f@), None => false })
}
pub open spec fn paths_ok(i: ObjectId, ps: Seq<Glob>) -> bool { ps.len() == 0 || exists|k: int| 0 <= k < ps.len() && hits(#[trigger] ps[k], i) }
pub open spec fn allowed(f: SourceFilters, i: ObjectId, t: FileType) -> bool {
    (f.requires_checksum ==> i.debug_checksum.is_some())
    && (f.filetypes@.len() == 0 || f.filetypes@.contains(t))
    && paths_ok(i, f.path_patterns@)
}
//@item crates/symbolicator-sources/src/paths.rs GLOB_OPTIONS
//@isub? glob :: MatchOptions ==> MatchOptions
//@item crates/symbolicator-sources/src/sources.rs SourceFilters
