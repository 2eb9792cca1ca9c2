// ---- frames of a request -----------------------------------------------------------------------------------
#[verifier::external_body] pub struct Platform { s: String }
impl Clone for Platform { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Language { Unknown, Other(u8) }
#[verifier::external_body] pub struct Registers { s: String }
impl Registers { pub uninterp spec fn at(&self, name: Str) -> Option<HexValue>; #[verifier::external_body] pub fn get(&self, name: &str) -> (r: Option<&HexValue>) ensures match r { Some(x) => self.at(name@) == Some(*x), None => self.at(name@) is None } { unimplemented!() } }
//@item crates/symbolicator-native/src/interface.rs Signal derive=Clone, Copy
//@item crates/symbolicator-native/src/interface.rs FrameStatus derive=Clone, Copy, PartialEq, Eq, Structural
//@item crates/symbolicator-native/src/interface.rs FrameTrust derive=Clone, Copy, PartialEq, Eq, Structural
//@item crates/symbolicator-native/src/interface.rs AdjustInstructionAddr derive=Clone, Copy
//@item crates/symbolicator-native/src/interface.rs RawFrame derive=
//@item crates/symbolicator-native/src/interface.rs RawStacktrace derive=
//@item crates/symbolicator-native/src/interface.rs SymbolicatedFrame derive=
