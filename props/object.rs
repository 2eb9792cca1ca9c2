// ---- symbolic::debuginfo::Object (dependency): assumed contract ------------------------------
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum FileFormat { Unknown, Breakpad, Elf, MachO, Pdb, Pe, SourceBundle, Wasm, PortablePdb }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum ObjectKind { None, Relocatable, Executable, Library, Dump, Debug, Sources, Other }
pub struct Object { o: u8 }
pub uninterp spec fn is_nil(d: DebugId) -> bool;
impl DebugId { #[verifier::external_body] pub fn is_nil(&self) -> (r: bool) ensures r == is_nil(*self) { unimplemented!() } }
impl Object {
    pub uninterp spec fn format(&self) -> FileFormat;
    pub uninterp spec fn okind(&self) -> ObjectKind;
    pub uninterp spec fn code(&self) -> Option<CodeId>;
    pub uninterp spec fn dbg(&self) -> DebugId;
    #[verifier::external_body] pub fn file_format(&self) -> (r: FileFormat) ensures r == self.format() { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: ObjectKind) ensures r == self.okind() { unimplemented!() }
    #[verifier::external_body] pub fn code_id(&self) -> (r: Option<CodeId>) ensures r == self.code() { unimplemented!() }
    #[verifier::external_body] pub fn debug_id(&self) -> (r: DebugId) ensures r == self.dbg() { unimplemented!() }
}
