use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayoutType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs FilenameCasing derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayout derive=Structural, PartialEq, Eq, Clone, Copy
//@include ../paths_spec.rs

pub trait VpToString { fn vp_into(&self) -> String; }
impl VpToString for str { #[verifier::external_body] fn vp_into(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }

/// what a proxied path resolves to
pub struct Found { pub t: FileType, pub o: ObjectType, pub code: Option<Str>, pub dbg: Option<DebugId>, pub code_file: Option<Str>, pub debug_file: Option<Str> }
pub open spec fn by_code(t: FileType, o: ObjectType, f: Str, c: Str) -> Option<Found> { Some(Found { t: t, o: o, code: Some(code_id_of(c)), dbg: None, code_file: Some(f), debug_file: None }) }
#[verifier::opaque]
pub open spec fn resolves(path: Str) -> Option<Found> {
    let p = split_n(path, '/', 3);
    if p.len() != 3 || !(s_lower(p[0]) =~= s_lower(p[2])) { None } else {
        let (f, sig) = (p[0], p[1]); let fl = s_lower(f); let sl = s_lower(sig);
        if has_suffix(fl, ".debug"@) && has_prefix(sl, "elf-buildid-sym-"@) { by_code(FileType::ElfDebug, ObjectType::Elf, f, sig.subrange(16, sig.len() as int)) }
        else if has_prefix(sl, "elf-buildid-"@) { by_code(FileType::ElfCode, ObjectType::Elf, f, sig.subrange(12, sig.len() as int)) }
        else if has_suffix(fl, ".dwarf"@) && has_prefix(sl, "mach-uuid-sym-"@) { by_code(FileType::MachDebug, ObjectType::Macho, f, sig.subrange(14, sig.len() as int)) }
        else if has_prefix(sl, "mach-uuid-"@) { by_code(FileType::MachCode, ObjectType::Macho, f, sig.subrange(10, sig.len() as int)) }
        else if has_suffix(fl, ".pdb"@) { match from_breakpad_of(sig) { Some(d) => Some(Found { t: FileType::Pdb, o: ObjectType::Pe, code: None, dbg: Some(d), code_file: None, debug_file: Some(f) }), None => None } }
        else { by_code(FileType::Pe, ObjectType::Pe, f, sig) }
    }
}
pub open spec fn found_of(r: (&'static [FileType], ObjectId)) -> Found {
    Found { t: r.0@[0], o: r.1.object_type, code: code_of(r.1), dbg: r.1.debug_id, code_file: osview(r.1.code_file), debug_file: osview(r.1.debug_file) }
}
pub proof fn lemma_fold_prefixes(s: Str)
    ensures
        has_prefix(s_lower(s), "elf-buildid-sym-"@) ==> s.len() >= 16 && bound_at(s, 16) == Some(16int),
        has_prefix(s_lower(s), "elf-buildid-"@) ==> s.len() >= 12 && bound_at(s, 12) == Some(12int),
        has_prefix(s_lower(s), "mach-uuid-sym-"@) ==> s.len() >= 14 && bound_at(s, 14) == Some(14int),
        has_prefix(s_lower(s), "mach-uuid-"@) ==> s.len() >= 10 && bound_at(s, 10) == Some(10int),
{
    reveal_strlit("elf-buildid-sym-"); reveal_strlit("elf-buildid-"); reveal_strlit("mach-uuid-sym-"); reveal_strlit("mach-uuid-");
    lemma_fold_prefix(s, "elf-buildid-sym-"@); lemma_fold_prefix(s, "elf-buildid-"@); lemma_fold_prefix(s, "mach-uuid-sym-"@); lemma_fold_prefix(s, "mach-uuid-"@);
}
pub proof fn lemma_fold_prefix(s: Str, p: Str)
    ensures fold_safe(p) && has_prefix(s_lower(s), p) ==> s.len() >= p.len() && bound_at(s, p.len() as int) == Some(p.len() as int)
{
    ax_lower_prefix(s, p);
    if fold_safe(p) && has_prefix(s_lower(s), p) {
        let n = p.len() as int;
        let t = s.subrange(0, n);
        ax::lemma_ascii_off(t, n);
        ax::lemma_off_eq(t, s, n);
        ax::ax_off(s, n);
    }
}
//@fn crates/symbolicator-sources/src/paths.rs parse_symstore_path ren=splitn,into
//@spec
    ensures r.is_some() == resolves(path@).is_some(),
        r.is_some() ==> r.unwrap().0@.len() == 1 && r.unwrap().1.debug_checksum.is_none(),
        r.is_some() ==> found_of(r.unwrap()) == resolves(path@).unwrap(),
//@start
    proof { reveal(resolves); reveal_with_fuel(split_n, 4); let p = split_n(path@, '/', 3); if p.len() == 3 { lemma_fold_prefixes(p[1]); } }
//@end

// ---- round trip with the symbol-store layout -------------------------------------------------
pub open spec fn hexc(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn lhexc(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') }
pub open spec fn hexs(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> hexc(#[trigger] s[k]) }
pub open spec fn lhexs(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> lhexc(#[trigger] s[k]) }
/// assumed renderings of the dependencies
#[verifier::external_body]
pub proof fn ax_code_hex(c: CodeId) ensures lhexs(c.view()) {}
#[verifier::external_body]
pub proof fn ax_code_new(s: Str) ensures hexs(s) ==> code_id_of(s) =~= a_lower(s) {}
#[verifier::external_body]
pub proof fn ax_uuid_hex(b: Seq<u8>) ensures lhexs(uuid_lower(b)), hexs(uuid_upper(b)), uuid_upper(b).len() == 32 {}
#[verifier::external_body]
pub proof fn ax_hex_hex(n: int) ensures lhexs(lhex(n)) {}
#[verifier::external_body]
pub proof fn ax_uuid_round(u: Uuid) ensures uuid_parse(uuid_lower(u.bytes())) == Some(u) {}
/// debug ids that carry a GUID (PDB 7.0): the symbol-store signature parses back
pub uninterp spec fn guid_based(d: DebugId) -> bool;
#[verifier::external_body]
pub proof fn ax_breakpad_round(d: DebugId) ensures guid_based(d) ==> from_breakpad_of(uuid_upper(debug_uuid(d).bytes()) + lhex(debug_age(d) as int)) == Some(d) {}
#[verifier::external_body]
pub proof fn ax_fold_ascii(s: Str) ensures ascii(s) ==> s_lower(s) =~= a_lower(s) && s_upper(s) =~= a_upper(s) {}
#[verifier::external_body]
pub proof fn ax_base_sep(s: Str) ensures !has_char(base_name(s), '/') {}

pub proof fn lemma_hex_ascii(s: Str) requires hexs(s) ensures ascii(s), !has_char(s, '/') {}
pub proof fn lemma_cut1(a: Str, rest: Str)
    requires !has_char(a, '/')
    ensures has_char(a + seq!['/'] + rest, '/'), (choose|i: int| is_first(a + seq!['/'] + rest, '/', i)) == a.len(),
        (a + seq!['/'] + rest).subrange(0, a.len() as int) =~= a, (a + seq!['/'] + rest).subrange(a.len() as int + 1, (a + seq!['/'] + rest).len() as int) =~= rest
{
    let s = a + seq!['/'] + rest;
    assert(s[a.len() as int] == '/');
    assert forall|j: int| 0 <= j < a.len() implies s[j] != '/' by { assert(s[j] == a[j]); }
    assert(is_first(s, '/', a.len() as int));
    let i = choose|i: int| is_first(s, '/', i);
    if i < a.len() { assert(s[i] == a[i]); } else if a.len() < i { assert(s[a.len() as int] != '/'); }
}
pub proof fn lemma_three(a: Str, b: Str, c: Str, p: Str)
    requires !has_char(a, '/'), !has_char(b, '/'), !has_char(c, '/'), p =~= a + seq!['/'] + b + seq!['/'] + c
    ensures split_n(p, '/', 3) =~= seq![a, b, c]
{
    reveal_with_fuel(split_n, 4);
    assert(p =~= a + seq!['/'] + (b + seq!['/'] + c));
    lemma_cut1(a, b + seq!['/'] + c); lemma_cut1(b, c);
}
/// the marker prefixes are no hexadecimal text
pub proof fn lemma_no_marker(s: Str)
    requires hexs(s)
    ensures !has_prefix(s_lower(s), "elf-buildid-"@), !has_prefix(s_lower(s), "mach-uuid-"@), !has_prefix(s_lower(s), "elf-buildid-sym-"@), !has_prefix(s_lower(s), "mach-uuid-sym-"@)
{
    reveal_strlit("elf-buildid-sym-"); reveal_strlit("elf-buildid-"); reveal_strlit("mach-uuid-sym-"); reveal_strlit("mach-uuid-");
    lemma_hex_ascii(s); ax_fold_ascii(s);
    let l = s_lower(s);
    if l.len() >= 10 { assert(hexc(s[1]) && hexc(s[0])); assert(l[1] == a_lower_c(s[1])); assert(l[0] == a_lower_c(s[0]));
        if has_prefix(l, "elf-buildid-"@) { assert("elf-buildid-"@[1] == l.subrange(0, 12)[1]); }
        if has_prefix(l, "elf-buildid-sym-"@) { assert("elf-buildid-sym-"@[1] == l.subrange(0, 16)[1]); }
        if has_prefix(l, "mach-uuid-"@) { assert("mach-uuid-"@[0] == l.subrange(0, 10)[0]); }
        if has_prefix(l, "mach-uuid-sym-"@) { assert("mach-uuid-sym-"@[0] == l.subrange(0, 14)[0]); } }
}
pub proof fn theorem_pdb(i: ObjectId)
    requires i.debug_id.is_some(), guid_based(i.debug_id.unwrap()), i.object_type != ObjectType::PeDotnet, file_name_of(i.debug_file).is_some(), has_suffix(s_lower(file_name_of(i.debug_file).unwrap()), ".pdb"@)
    ensures p_symstore(FileType::Pdb, i, false).is_some(),
        resolves(p_symstore(FileType::Pdb, i, false).unwrap()) == Some(Found { t: FileType::Pdb, o: ObjectType::Pe, code: None, dbg: i.debug_id, code_file: None, debug_file: file_name_of(i.debug_file) })
{
    reveal(p_pdb); reveal(resolves); reveal_strlit("/"); reveal_strlit(".pdb"); reveal_strlit(".debug"); reveal_strlit(".dwarf");
    let d = i.debug_id.unwrap(); let f = file_name_of(i.debug_file).unwrap(); let sig = pdb_sig(i, d, false);
    ax_base_sep(i.debug_file.unwrap()@); ax_uuid_hex(debug_uuid(d).bytes()); ax_hex_hex(debug_age(d) as int); ax_breakpad_round(d);
    assert forall|k: int| 0 <= k < sig.len() implies hexc(#[trigger] sig[k]) by { let u = uuid_upper(debug_uuid(d).bytes()); let h = lhex(debug_age(d) as int); if k < u.len() { assert(hexc(u[k])); } else { assert(lhexc(h[k - u.len()])); } }
    lemma_hex_ascii(sig); lemma_no_marker(sig);
    let p = p_symstore(FileType::Pdb, i, false).unwrap();
    lemma_three(f, sig, f, p);
}
pub proof fn theorem_pe(i: ObjectId)
    requires i.code_id.is_some(), i.code_id.unwrap().view().len() >= 8, file_name_of(i.code_file).is_some(), !has_suffix(s_lower(file_name_of(i.code_file).unwrap()), ".pdb"@)
    ensures p_symstore(FileType::Pe, i, false).is_some(),
        resolves(p_symstore(FileType::Pe, i, false).unwrap()) == Some(Found { t: FileType::Pe, o: ObjectType::Pe, code: code_of(i), dbg: None, code_file: file_name_of(i.code_file), debug_file: None })
{
    reveal(p_pe); reveal(resolves); reveal_strlit("/"); reveal_strlit(".pdb"); reveal_strlit(".debug"); reveal_strlit(".dwarf");
    let f = file_name_of(i.code_file).unwrap(); let c = code_of(i).unwrap();
    ax_base_sep(i.code_file.unwrap()@); ax_code_hex(i.code_id.unwrap());
    let a = c.subrange(0, 8); let b = c.subrange(8, c.len() as int);
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k] as u32) < 128 by { assert(lhexc(c[k])); }
    ax_fold_ascii(a); ax_fold_ascii(b);
    let sig = s_upper(a) + s_lower(b);
    assert(ascii(a) && ascii(b));
    assert forall|k: int| 0 <= k < sig.len() implies hexc(#[trigger] sig[k]) && a_lower_c(sig[k]) == c[k] by { assert(lhexc(c[k])); if k < 8 { assert(sig[k] == a_upper_c(c[k])); } else { assert(sig[k] == a_lower_c(c[k])); } }
    lemma_hex_ascii(sig); lemma_no_marker(sig); ax_code_new(sig);
    assert(a_lower(sig) =~= c);
    let p = p_symstore(FileType::Pe, i, false).unwrap();
    lemma_three(f, sig, f, p);
}
/// marker + hexadecimal identifier
pub proof fn lemma_marked(f: Str, m: Str, h: Str, p: Str)
    requires !has_char(f, '/'), !has_char(m, '/'), ascii(m), lhexs(h), p =~= f + seq!['/'] + (m + h) + seq!['/'] + f
    ensures split_n(p, '/', 3) =~= seq![f, m + h, f], s_lower(m + h) =~= a_lower(m) + h, (m + h).subrange(m.len() as int, (m + h).len() as int) =~= h, code_id_of(h) =~= h
{
    let s = m + h;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 128 && s[k] != '/' by { if k < m.len() { assert(s[k] == m[k]); } else { assert(s[k] == h[k - m.len()]); assert(lhexc(h[k - m.len()])); } }
    ax_fold_ascii(s); lemma_three(f, s, f, p);
    assert forall|k: int| 0 <= k < h.len() implies a_lower_c(#[trigger] h[k]) == h[k] by { assert(lhexc(h[k])); }
    assert(a_lower(s) =~= a_lower(m) + h);
    assert(hexs(h)) by { assert forall|k: int| 0 <= k < h.len() implies hexc(#[trigger] h[k]) by { assert(lhexc(h[k])); } }
    ax_code_new(h);
    assert(a_lower(h) =~= h);
}
pub proof fn theorem_elf_code(i: ObjectId)
    requires i.code_id.is_some(), file_name_of(i.code_file).is_some()
    ensures resolves(p_symstore(FileType::ElfCode, i, false).unwrap()) == Some(Found { t: FileType::ElfCode, o: ObjectType::Elf, code: code_of(i), dbg: None, code_file: file_name_of(i.code_file), debug_file: None })
{
    reveal(resolves); reveal_strlit("/"); reveal_strlit("/elf-buildid-"); reveal_strlit("elf-buildid-"); reveal_strlit("elf-buildid-sym-");
    let f = file_name_of(i.code_file).unwrap(); let c = code_of(i).unwrap(); let m = "elf-buildid-"@;
    ax_base_sep(i.code_file.unwrap()@); ax_code_hex(i.code_id.unwrap());
    let p = p_symstore(FileType::ElfCode, i, false).unwrap();
    assert(p =~= f + seq!['/'] + (m + c) + seq!['/'] + f);
    lemma_marked(f, m, c, p);
    let sl = s_lower(m + c);
    assert(a_lower(m) =~= m);
    assert(has_prefix(sl, m));
    if has_prefix(sl, "elf-buildid-sym-"@) { assert(sl.subrange(0, 16)[12] == 's'); assert(sl[12] == c[0]); assert(lhexc(c[0])); }
}
pub proof fn theorem_elf_debug(i: ObjectId)
    requires i.code_id.is_some()
    ensures resolves(p_symstore(FileType::ElfDebug, i, false).unwrap()) == Some(Found { t: FileType::ElfDebug, o: ObjectType::Elf, code: code_of(i), dbg: None, code_file: Some("_.debug"@), debug_file: None })
{
    reveal(resolves); reveal_strlit("_.debug/elf-buildid-sym-"); reveal_strlit("/_.debug"); reveal_strlit("_.debug"); reveal_strlit(".debug"); reveal_strlit("elf-buildid-sym-");
    let f = "_.debug"@; let c = code_of(i).unwrap(); let m = "elf-buildid-sym-"@;
    ax_code_hex(i.code_id.unwrap()); ax_fold_ascii(f);
    let p = p_symstore(FileType::ElfDebug, i, false).unwrap();
    assert(p =~= f + seq!['/'] + (m + c) + seq!['/'] + f);
    lemma_marked(f, m, c, p);
    assert(a_lower(m) =~= m); assert(a_lower(f) =~= f);
    assert(has_prefix(s_lower(m + c), m));
    assert(f.subrange(1, 7) =~= ".debug"@);
}
pub proof fn theorem_mach_code(i: ObjectId)
    requires mach_uuid(i).is_some(), file_name_of(i.code_file).is_some()
    ensures resolves(p_symstore(FileType::MachCode, i, false).unwrap()) == Some(Found { t: FileType::MachCode, o: ObjectType::Macho, code: Some(uuid_lower(mach_uuid(i).unwrap().bytes())), dbg: None, code_file: file_name_of(i.code_file), debug_file: None }),
        uuid_parse(uuid_lower(mach_uuid(i).unwrap().bytes())) == mach_uuid(i),
{
    reveal(resolves); reveal_strlit("/"); reveal_strlit("/mach-uuid-"); reveal_strlit("mach-uuid-"); reveal_strlit("mach-uuid-sym-"); reveal_strlit("elf-buildid-"); reveal_strlit("elf-buildid-sym-");
    let f = file_name_of(i.code_file).unwrap(); let u = mach_uuid(i).unwrap(); let c = uuid_lower(u.bytes()); let m = "mach-uuid-"@;
    ax_base_sep(i.code_file.unwrap()@); ax_uuid_hex(u.bytes()); ax_uuid_round(u);
    let p = p_symstore(FileType::MachCode, i, false).unwrap();
    assert(p =~= f + seq!['/'] + (m + c) + seq!['/'] + f);
    lemma_marked(f, m, c, p);
    let sl = s_lower(m + c);
    assert(a_lower(m) =~= m);
    assert(has_prefix(sl, m)); assert(sl[0] == 'm');
    if has_prefix(sl, "elf-buildid-sym-"@) { assert(sl.subrange(0, 16)[0] == 'e'); }
    if has_prefix(sl, "elf-buildid-"@) { assert(sl.subrange(0, 12)[0] == 'e'); }
    if has_prefix(sl, "mach-uuid-sym-"@) { assert(sl.subrange(0, 14)[10] == 's'); assert(sl[10] == c[0]); assert(lhexc(c[0])); }
}
pub proof fn theorem_mach_debug(i: ObjectId)
    requires mach_uuid(i).is_some()
    ensures resolves(p_symstore(FileType::MachDebug, i, false).unwrap()) == Some(Found { t: FileType::MachDebug, o: ObjectType::Macho, code: Some(uuid_lower(mach_uuid(i).unwrap().bytes())), dbg: None, code_file: Some("_.dwarf"@), debug_file: None }),
        uuid_parse(uuid_lower(mach_uuid(i).unwrap().bytes())) == mach_uuid(i),
{
    reveal(resolves); reveal_strlit("_.dwarf/mach-uuid-sym-"); reveal_strlit("/_.dwarf"); reveal_strlit("_.dwarf"); reveal_strlit(".dwarf"); reveal_strlit(".debug"); reveal_strlit("mach-uuid-sym-"); reveal_strlit("elf-buildid-"); reveal_strlit("elf-buildid-sym-");
    let f = "_.dwarf"@; let u = mach_uuid(i).unwrap(); let c = uuid_lower(u.bytes()); let m = "mach-uuid-sym-"@;
    ax_uuid_hex(u.bytes()); ax_uuid_round(u); ax_fold_ascii(f);
    let p = p_symstore(FileType::MachDebug, i, false).unwrap();
    assert(p =~= f + seq!['/'] + (m + c) + seq!['/'] + f);
    lemma_marked(f, m, c, p);
    let sl = s_lower(m + c);
    assert(a_lower(m) =~= m); assert(a_lower(f) =~= f);
    assert(has_prefix(sl, m)); assert(sl[0] == 'm');
    if has_prefix(sl, "elf-buildid-sym-"@) { assert(sl.subrange(0, 16)[0] == 'e'); }
    if has_prefix(sl, "elf-buildid-"@) { assert(sl.subrange(0, 12)[0] == 'e'); }
    assert(f.subrange(1, 7) =~= ".dwarf"@);
}
}
fn main() {}
