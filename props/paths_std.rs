// ---- std::path (assumed) --------------------------------------------------------------------
pub struct PathBuf { p: String }
pub struct Path { p: String }
pub struct OsStr { p: String }
impl PathBuf { #[verifier::external_body] pub fn vp_file_name(&self) -> (r: Option<&OsStr>) { unimplemented!() } }
impl OsStr { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: VpCow<'_>) { unimplemented!() } }
impl<'a> core::ops::Deref for VpCow<'a> { type Target = str; #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() } }
pub trait VpContext<T> { fn context(self, s: &str) -> Result<T>; }
impl<T> VpContext<T> for Option<T> { #[verifier::external_body] fn context(self, s: &str) -> (r: Result<T>) ensures r.is_ok() == self.is_some(), r.is_ok() ==> r.unwrap() == self.unwrap() { unimplemented!() } }
