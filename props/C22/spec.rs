use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../anyhow.rs
//@include ../paths_std.rs

// ---- regex (dependency): assumed contract for one pattern ------------------------------------
pub struct Regex { x: u8 }
pub open spec fn word_ok(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '.' || c == ',' || c == '-' }
/// every maximal run of other characters replaced by the text
pub open spec fn runs(s: Str, rep: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if word_ok(s.last()) { runs(s.drop_last(), rep) + seq![s.last()] }
    else if s.len() > 1 && !word_ok(s[s.len() - 2]) { runs(s.drop_last(), rep) }
    else { runs(s.drop_last(), rep) + rep }
}
impl Regex {
    pub uninterp spec fn pat(&self) -> Str;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex>) ensures p@ == "[^a-zA-Z0-9.,-]+"@ ==> r.is_ok(), r.is_ok() ==> r.unwrap().pat() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_all<'a>(&self, s: &'a str, rep: &str) -> (r: VpCow<'a>)
        ensures self.pat() == "[^a-zA-Z0-9.,-]+"@ && !has_char(rep@, '$') ==> r.view() =~= runs(s@, rep@) { unimplemented!() }
}
/// str::trim_matches with a set of one character
pub open spec fn trimmed(s: Str, c: char) -> Str
    decreases s.len()
{ if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c) } else if s.len() > 0 && s[0] == c { trimmed(s.skip(1), c) } else { s } }
impl<'a> VpCow<'a> {
    #[verifier::external_body]
    pub fn vp_trim_matches(&self, c: char) -> (r: &str) ensures r@ =~= trimmed(self.view(), c) { unimplemented!() }
}

//@regex crates/symsorter/src/utils.rs BAD_CHARS_RE
/// an ordinary path segment
pub open spec fn safe_char(c: char) -> bool { word_ok(c) || c == '_' }
pub open spec fn safe_id(s: Str) -> bool { s.len() > 0 && s != "."@ && s != ".."@ && forall|i: int| 0 <= i < s.len() ==> safe_char(#[trigger] s[i]) }
pub open spec fn make_spec(s: Str) -> Str { trimmed(runs(s, "_"@), '_') }
pub proof fn lemma_runs(s: Str)
    ensures forall|i: int| 0 <= i < runs(s, "_"@).len() ==> safe_char(#[trigger] runs(s, "_"@)[i])
    decreases s.len()
{ reveal_strlit("_"); if s.len() > 0 {
    let d = s.drop_last(); lemma_runs(d); let rd = runs(d, "_"@);
    assert forall|i: int| 0 <= i < runs(s, "_"@).len() implies safe_char(#[trigger] runs(s, "_"@)[i]) by { if i < rd.len() { assert(runs(s, "_"@)[i] == rd[i]); assert(safe_char(rd[i])); } }
} }
pub proof fn lemma_trim(s: Str, c: char)
    requires forall|i: int| 0 <= i < s.len() ==> safe_char(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < trimmed(s, c).len() ==> safe_char(#[trigger] trimmed(s, c)[i])
    decreases s.len()
{
    let d = s.drop_last(); let k = s.skip(1);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < d.len() implies safe_char(#[trigger] d[i]) by { assert(safe_char(s[i])); }
        assert forall|i: int| 0 <= i < k.len() implies safe_char(#[trigger] k[i]) by { assert(safe_char(s[i + 1])); }
        if s.last() == c { lemma_trim(d, c); assert(trimmed(s, c) == trimmed(d, c)); } else if s[0] == c { lemma_trim(k, c); assert(trimmed(s, c) == trimmed(k, c)); }
        else { assert(trimmed(s, c) == s); }
    }
}
/// what is made of any text consists of ordinary characters only
pub proof fn theorem_made(s: Str)
    ensures forall|i: int| 0 <= i < make_spec(s).len() ==> safe_char(#[trigger] make_spec(s)[i])
{ lemma_runs(s); lemma_trim(runs(s, "_"@), '_'); }
/// no separator, no nul, not a reference to a directory
pub proof fn theorem_single_segment(s: Str)
    requires safe_id(s)
    ensures !has_char(s, '/'), !has_char(s, '\\'), !has_char(s, ':'), !has_char(s, '\0'), s.len() > 0, s != "."@, s != ".."@
{ assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' && s[i] != '\\' && s[i] != ':' && s[i] != '\0' by { assert(safe_char(s[i])); } }

//@fn crates/symsorter/src/utils.rs make_bundle_id
//@sub? BAD_CHARS_RE ==> BAD_CHARS_RE()
//@sub? & [ '_' ] [ .. ] ==> '_'
//@spec
    ensures r@ =~= make_spec(input@),
//@start
    proof { reveal_strlit("_"); }
//@end
//@fn crates/symsorter/src/utils.rs is_bundle_id
//@spec
    ensures r ==> safe_id(input@), r == (make_spec(input@) == input@ && input@.len() > 0 && input@ != "."@ && input@ != ".."@),
//@start
    proof { theorem_made(input@); reveal_strlit(""); assert(input@.len() == 0 ==> input@ =~= ""@); }
//@end

//@item crates/symsorter/src/config.rs SortConfig
pub struct Cli { pub output: PathBuf, pub prefix: Option<String>, pub bundle_id: Option<String>, pub multiple_bundles: bool, pub with_sources: bool, pub compression_level: u8, pub ignore_errors: bool, pub quiet: bool, pub input: Vec<PathBuf> }
/// bundle metadata goes to bundles/<id> and <object>/refs/<id>: the id has to be an ordinary segment
pub open spec fn config_ok(c: SortConfig) -> bool { c.bundle_id.is_some() ==> safe_id(c.bundle_id.unwrap()@) }
#[verifier::external_body]
fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> (r: Result<(usize, usize)>)
    requires config_ok(*sort_config)
    ensures r.is_ok() ==> r.unwrap().0 < 0x1000_0000 && r.unwrap().1 < 0x1000_0000
{ unimplemented!() }

//@fn crates/symsorter/src/app.rs execute stub=sort_files
//@drop RunConfig :: configure
//@sub? vec ! [ path ] ==> vp_vec1(path)
//@sub? for path in cli . input . into_iter ( ) ==> for path in it: cli.input
//@spec
    requires cli.input@.len() < 0x1_0000_0000,
//@loop 0
        invariant debug_files <= it.index@ * 0x1000_0000, source_bundles <= it.index@ * 0x1000_0000, cli.input@.len() < 0x1_0000_0000, it.seq() == cli.input@,
//@end
}
fn main() {}
