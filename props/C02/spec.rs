use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayoutType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs FilenameCasing derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayout derive=Structural, PartialEq, Eq, Clone, Copy
//@include ../paths_spec.rs
//@include ../paths_unified.rs
//@include ../anyhow.rs
//@include ../object.rs

pub struct PathBuf { p: String }
impl PathBuf { pub uninterp spec fn view(&self) -> Str; }
pub trait VpInto { fn vp_into(&self) -> PathBuf; }
impl VpInto for String { #[verifier::external_body] fn vp_into(&self) -> (r: PathBuf) ensures r.view() == self@ { unimplemented!() } }

//@include ../sorted.rs
//@include ../sorted_fns.rs
/// the file type a lookup asks for an object of this format and kind, and the object type of its module
pub open spec fn asked(f: FileFormat, k: ObjectKind) -> Option<(FileType, ObjectType)> {
    match (f, k) {
        (FileFormat::Elf, ObjectKind::Debug) => Some((FileType::ElfDebug, ObjectType::Elf)),
        (FileFormat::Elf, ObjectKind::Library | ObjectKind::Executable) => Some((FileType::ElfCode, ObjectType::Elf)),
        (FileFormat::MachO, ObjectKind::Debug) => Some((FileType::MachDebug, ObjectType::Macho)),
        (FileFormat::MachO, ObjectKind::Library | ObjectKind::Executable) => Some((FileType::MachCode, ObjectType::Macho)),
        (FileFormat::Wasm, ObjectKind::Debug) => Some((FileType::WasmDebug, ObjectType::Wasm)),
        (FileFormat::Wasm, ObjectKind::Library | ObjectKind::Executable) => Some((FileType::WasmCode, ObjectType::Wasm)),
        (FileFormat::Pe, ObjectKind::Library | ObjectKind::Executable) => Some((FileType::Pe, ObjectType::Pe)),
        (FileFormat::Pdb, ObjectKind::Debug) => Some((FileType::Pdb, ObjectType::Pe)),
        (FileFormat::PortablePdb, ObjectKind::Debug) => Some((FileType::PortablePdb, ObjectType::PeDotnet)),
        _ => None,
    }
}
/// the module types whose files carry their identifier as a code id (build id, uuid)
pub open spec fn by_code_id(t: ObjectType) -> bool { t == ObjectType::Elf || t == ObjectType::Macho || t == ObjectType::Wasm }
/// what the identity of an object says to a lookup
pub open spec fn identity_of(o: Object, m: ObjectType, i: ObjectId) -> bool { i.code_id == o.code() && i.debug_id == Some(o.dbg()) && i.object_type == m }
/// a stored object lies where a unified lookup with its identity goes (the known findings are exactly the identities this precondition leaves out)
pub proof fn theorem_sorted_is_found(o: Object, i: ObjectId)
    requires
        sorted_path(o).is_some(),
        asked(o.format(), o.okind()).is_some(),
        ({ let m = asked(o.format(), o.okind()).unwrap().1; identity_of(o, m, i) && (by_code_id(m) ==> o.code().is_some()) && (o.format() == FileFormat::Pdb || o.format() == FileFormat::PortablePdb ==> o.code().is_none()) }),
    ensures p_unified(asked(o.format(), o.okind()).unwrap().0, i) =~= sorted_path(o)
{ reveal(sorted_id); reveal_strlit("/"); }
pub proof fn theorem_bundle_is_found(o: Object, i: ObjectId, m: ObjectType)
    requires
        sorted_path(o).is_some(), o.format() == FileFormat::SourceBundle, o.okind() == ObjectKind::Sources,
        m != ObjectType::Unknown, identity_of(o, m, i), by_code_id(m) == o.code().is_some(),
    ensures p_unified(FileType::SourceBundle, i) =~= sorted_path(o)
{ reveal(sorted_id); reveal_strlit("/"); }

/// a location determines the identifier it was made from
pub open spec fn split_at2(id: Str, k: int, s: Str) -> Str { id.subrange(0, k) + "/"@ + id.subrange(k, id.len() as int) + "/"@ + s }
pub proof fn theorem_distinct(a: Str, b: Str, s: Str, t: Str)
    requires bound_at(a, 2).is_some(), bound_at(b, 2).is_some(), !has_char(a, '/'), !has_char(b, '/'), !has_char(s, '/'), !has_char(t, '/'),
        split_at2(a, bound_at(a, 2).unwrap(), s) =~= split_at2(b, bound_at(b, 2).unwrap(), t)
    ensures a =~= b, s =~= t
{
    reveal_strlit("/");
    let (j, k) = (bound_at(a, 2).unwrap(), bound_at(b, 2).unwrap());
    let x = split_at2(a, j, s); let y = split_at2(b, k, t);
    assert(x[j] == '/'); assert(y[k] == '/');
    assert forall|i: int| 0 <= i < j implies x[i] == a[i] by {}
    assert forall|i: int| 0 <= i < k implies y[i] == b[i] by {}
    if j < k { assert(y[j] == b[j]); } else if k < j { assert(x[k] == a[k]); }
    let ra = a.subrange(j, a.len() as int); let rb = b.subrange(j, b.len() as int);
    assert forall|i: int| 0 <= i < ra.len() implies #[trigger] ra[i] == x[j + 1 + i] by {}
    assert forall|i: int| 0 <= i < rb.len() implies #[trigger] rb[i] == y[j + 1 + i] by {}
    assert(x[j + 1 + ra.len()] == '/'); assert(y[j + 1 + rb.len()] == '/');
    if ra.len() < rb.len() { assert(rb[ra.len() as int] == b[j + ra.len()]); } else if rb.len() < ra.len() { assert(ra[rb.len() as int] == a[j + rb.len()]); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i < j { assert(x[i] == y[i]); } else { assert(ra[i - j] == rb[i - j]); } }
    assert(a.len() == b.len());
    assert(x.len() == a.len() + 2 + s.len()); assert(y.len() == b.len() + 2 + t.len()); assert(x =~= y);
    assert(s.len() == t.len());
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { let n = a.len() + 2; assert(x[n + i] == s[i]); assert(y[n + i] == t[i]); }
}
}
fn main() {}
