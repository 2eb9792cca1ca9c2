// ---------------------------------------------------------------------------------------------
// debugid / uuid (dependencies): assumed contracts.
// ---------------------------------------------------------------------------------------------
/// debugid::CodeId: a text of lower-case hexadecimal digits (CodeId::new retains ascii hex digits, lower-cases)
pub struct CodeId { inner: String }
impl CodeId {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.view(), ascii(r@) { self.inner.as_str() }
    #[verifier::external_body]
    pub fn new(s: String) -> (r: CodeId) ensures r.view() == code_id_of(s@) { CodeId { inner: s } }
}
/// retains the ascii hex digits of a text, lower-cased
pub uninterp spec fn code_id_of(s: Str) -> Str;
impl VpDisp for CodeId { open spec fn disp(&self) -> Str { self.view() } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }

#[derive(Clone, Copy)]
pub struct Uuid { b: [u8; 16] }
pub struct Simple { u: Uuid }
impl Uuid {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vp_as_bytes(&self) -> (r: &[u8; 16]) ensures r@ == self.bytes(), self.bytes().len() == 16 { &self.b }
    #[verifier::external_body]
    pub fn vp_as_simple(&self) -> (r: Simple) ensures r.of() == self.bytes() { Simple { u: *self } }
}
/// 32 lower-case / upper-case hexadecimal digits
pub uninterp spec fn uuid_lower(b: Seq<u8>) -> Str;
pub uninterp spec fn uuid_upper(b: Seq<u8>) -> Str;
/// uuid::Uuid::from_str
pub uninterp spec fn uuid_parse(s: Str) -> Option<Uuid>;
impl Simple { pub uninterp spec fn of(&self) -> Seq<u8>; }
impl VpDisp for Simple { open spec fn disp(&self) -> Str { uuid_lower(self.of()) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl Simple { #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == uuid_lower(self.of()) { unimplemented!() } }
impl VpHex for Simple {
    open spec fn hx(&self) -> Str { uuid_lower(self.of()) }
    open spec fn hux(&self) -> Str { uuid_upper(self.of()) }
    #[verifier::external_body] fn vp_push_lx(&self, o: &mut String) { unimplemented!() }
    #[verifier::external_body] fn vp_push_ux(&self, o: &mut String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_uuid_parse(s: &str) -> (r: Option<Uuid>) ensures r == uuid_parse(s@) { unimplemented!() }

#[derive(Clone, Copy)]
pub struct DebugId { u: Uuid, a: u32 }
pub struct Breakpad { d: DebugId }
pub uninterp spec fn breakpad_of(d: DebugId) -> Str;
pub uninterp spec fn debug_uuid(d: DebugId) -> Uuid;
pub uninterp spec fn debug_age(d: DebugId) -> u32;
pub uninterp spec fn from_breakpad_of(s: Str) -> Option<DebugId>;
#[derive(Debug)]
pub struct ParseDebugIdError {}
impl DebugId {
    #[verifier::external_body]
    pub fn vp_uuid(&self) -> (r: Uuid) ensures r == debug_uuid(*self) { self.u }
    #[verifier::external_body]
    pub fn vp_appendix(&self) -> (r: u32) ensures r == debug_age(*self) { self.a }
    #[verifier::external_body]
    pub fn vp_breakpad(&self) -> (r: Breakpad) ensures r.of() == *self { Breakpad { d: *self } }
    #[verifier::external_body]
    pub fn from_breakpad(s: &str) -> (r: Result<DebugId, ParseDebugIdError>) ensures r.is_ok() == from_breakpad_of(s@).is_some(), r.is_ok() ==> r.unwrap() == from_breakpad_of(s@).unwrap() { unimplemented!() }
}
impl Breakpad {
    pub uninterp spec fn of(&self) -> DebugId;
    #[verifier::external_body] pub fn vp_to_string(&self) -> (r: String) ensures r@ == breakpad_of(self.of()) { unimplemented!() }
}
impl VpDisp for Breakpad { open spec fn disp(&self) -> Str { breakpad_of(self.of()) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }

/// symbolic::common::split_path: the part after the last separator, trailing separators ignored
pub uninterp spec fn base_name(s: Str) -> Str;
pub open spec fn is_sep(c: char) -> bool { c == '/' || c == '\\' }
#[verifier::external_body]
pub fn split_path(s: &str) -> (r: (Option<&str>, &str))
    ensures r.1@ == base_name(s@), !has_char(r.1@, '/'), !has_char(r.1@, '\\') { unimplemented!() }
/// char::is_control
pub uninterp spec fn c_control(c: char) -> bool;
pub open spec fn any_control(s: Str) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] c_control(s[i]) }
#[verifier::external_body]
pub fn vp_any_control(s: &str) -> (r: bool) ensures r == any_control(s@) { unimplemented!() }

// ---------------------------------------------------------------------------------------------
// types of /repo, verbatim
// ---------------------------------------------------------------------------------------------
//@item crates/symbolicator-sources/src/types.rs ObjectType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/filetype.rs FileType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/types.rs ObjectId

pub open spec fn file_ok(s: Str) -> bool {
    let b = base_name(s);
    b != ""@ && b != "."@ && b != ".."@ && utf8_len(b) < 256 && !any_control(b)
}
pub open spec fn file_name_of(f: Option<String>) -> Option<Str> {
    match f { Some(s) if file_ok(s@) => Some(base_name(s@)), _ => None }
}
pub open spec fn oeq(a: Option<Str>, b: Option<Str>) -> bool { match (a, b) { (Some(x), Some(y)) => x =~= y, (None, None) => true, _ => false } }
pub open spec fn oview(o: Option<&str>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn osview(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
