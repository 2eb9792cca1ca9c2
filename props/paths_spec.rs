// ---------------------------------------------------------------------------------------------
// The documented layouts (docs/advanced/symbol-server-compatibility.md) as spec functions of the
// identity.
// ---------------------------------------------------------------------------------------------
pub open spec fn code_of(i: ObjectId) -> Option<Str> { match i.code_id { Some(c) => Some(c.view()), None => None } }
pub open spec fn fold_name(s: Str, ssqp: bool) -> Str { if ssqp { s_lower(s) } else { s } }

/// GDB build-id method: nn/nnnn...
#[verifier::opaque]
pub open spec fn p_gdb(i: ObjectId) -> Option<Str> {
    match code_of(i) { Some(c) if c.len() >= 2 => Some(c.subrange(0, 2) + "/"@ + c.subrange(2, c.len() as int)), _ => None }
}
pub open spec fn mach_uuid(i: ObjectId) -> Option<Uuid> {
    match i.code_id { Some(c) => uuid_parse(c.view()), None => match i.debug_id { Some(d) => Some(debug_uuid(d)), None => None } }
}
/// LLDB: XXXX/XXXX/XXXX/XXXX/XXXX/XXXXXXXXXXXX
pub open spec fn lldb_text(b: Seq<u8>, n: int) -> Str
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        lldb_text(b, n - 1) + uhex2(b[n - 1] as int) + (if (n - 1) % 2 == 1 && n - 1 <= 9 { seq!['/'] } else { Seq::empty() })
    }
}
#[verifier::opaque]
pub open spec fn p_lldb(i: ObjectId) -> Option<Str> {
    match mach_uuid(i) { Some(u) => Some(lldb_text(u.bytes(), 16)), None => None }
}
pub open spec fn pdb_sig(i: ObjectId, d: DebugId, ssqp: bool) -> Str {
    let age = if i.object_type == ObjectType::PeDotnet { u32::MAX } else { debug_age(d) };
    if ssqp { uuid_lower(debug_uuid(d).bytes()) + uhex(age as int) } else { uuid_upper(debug_uuid(d).bytes()) + lhex(age as int) }
}
#[verifier::opaque]
pub open spec fn p_pdb(i: ObjectId, ssqp: bool) -> Option<Str> {
    match (file_name_of(i.debug_file), i.debug_id) {
        (Some(f), Some(d)) => Some(fold_name(f, ssqp) + "/"@ + pdb_sig(i, d, ssqp) + "/"@ + fold_name(f, ssqp)),
        _ => None,
    }
}
#[verifier::opaque]
pub open spec fn p_pe(i: ObjectId, ssqp: bool) -> Option<Str> {
    match (file_name_of(i.code_file), code_of(i)) {
        (Some(f), Some(c)) =>
            if ssqp { Some(s_lower(f) + "/"@ + c + "/"@ + s_lower(f)) }
            else if c.len() < 8 { None }
            else { Some(f + "/"@ + s_upper(c.subrange(0, 8)) + s_lower(c.subrange(8, c.len() as int)) + "/"@ + f) },
        _ => None,
    }
}
pub open spec fn sym_name(f: Str) -> Str {
    if has_suffix(f, ".exe"@) { drop_suffix(f, ".exe"@) }
    else if has_suffix(f, ".dll"@) { drop_suffix(f, ".dll"@) }
    else if has_suffix(f, ".pdb"@) { drop_suffix(f, ".pdb"@) }
    else { f }
}
#[verifier::opaque]
pub open spec fn breakpad_stem(i: ObjectId) -> Option<Str> {
    if i.object_type == ObjectType::Wasm { None } else {
        match (file_name_of(i.debug_file), i.debug_id) {
            (Some(f), Some(d)) => Some(f + "/"@ + breakpad_of(d) + "/"@ + sym_name(f)),
            _ => None,
        }
    }
}
pub open spec fn p_breakpad(i: ObjectId) -> Option<Str> {
    match breakpad_stem(i) { Some(s) => Some(s + ".sym"@), None => None }
}
pub open spec fn cat(o: Option<Str>, t: Str) -> Option<Str> { match o { Some(s) => Some(s + t), None => None } }
pub open spec fn one(o: Option<Str>) -> Seq<Str> { match o { Some(s) => seq![s], None => Seq::empty() } }

pub open spec fn native_bundle(i: ObjectId) -> Option<Str> {
    match i.object_type {
        ObjectType::Pe | ObjectType::PeDotnet => match p_pdb(i, false) { Some(p) => Some(cut_at_last(p, '.') + ".src.zip"@), None => None },
        ObjectType::Macho => cat(p_lldb(i), ".src.zip"@),
        ObjectType::Elf | ObjectType::Wasm => cat(p_gdb(i), ".src.zip"@),
        ObjectType::Unknown => None,
    }
}
pub open spec fn p_native(t: FileType, i: ObjectId) -> Seq<Str> {
    match t {
        FileType::ElfCode | FileType::WasmCode => one(p_gdb(i)),
        FileType::ElfDebug | FileType::WasmDebug => one(cat(p_gdb(i), ".debug"@)),
        FileType::MachCode => one(cat(p_lldb(i), ".app"@)),
        FileType::MachDebug => one(p_lldb(i)),
        FileType::Pdb | FileType::PortablePdb => one(p_pdb(i, false)),
        FileType::Pe => one(p_pe(i, false)),
        FileType::Breakpad => one(p_breakpad(i)),
        FileType::SourceBundle => match native_bundle(i) {
            None => Seq::empty(),
            Some(p) => match breakpad_stem(i) {
                Some(b) if b + ".src.zip"@ != p => seq![b + ".src.zip"@, p],
                _ => seq![p],
            },
        },
        _ => Seq::empty(),
    }
}
pub open spec fn p_symstore(t: FileType, i: ObjectId, ssqp: bool) -> Option<Str> {
    match t {
        FileType::ElfCode => match (code_of(i), file_name_of(i.code_file)) {
            (Some(c), Some(f)) => Some(fold_name(f, ssqp) + "/elf-buildid-"@ + c + "/"@ + fold_name(f, ssqp)),
            _ => None,
        },
        FileType::ElfDebug => match code_of(i) { Some(c) => Some("_.debug/elf-buildid-sym-"@ + c + "/_.debug"@), None => None },
        FileType::MachCode => match (mach_uuid(i), file_name_of(i.code_file)) {
            (Some(u), Some(f)) => Some(fold_name(f, ssqp) + "/mach-uuid-"@ + uuid_lower(u.bytes()) + "/"@ + fold_name(f, ssqp)),
            _ => None,
        },
        FileType::MachDebug => match mach_uuid(i) { Some(u) => Some("_.dwarf/mach-uuid-sym-"@ + uuid_lower(u.bytes()) + "/_.dwarf"@), None => None },
        FileType::Pdb | FileType::PortablePdb => p_pdb(i, ssqp),
        FileType::Pe => p_pe(i, ssqp),
        FileType::SourceBundle => if i.object_type == ObjectType::Pe {
                match p_pdb(i, ssqp) { Some(p) => Some(cut_at_last(p, '.') + ".src.zip"@), None => None }
            } else { None },
        _ => None,
    }
}
pub open spec fn index2(s: Str) -> Str {
    match bound_at(s, 2) {
        Some(k) => if k > 0 && (s[k - 1] == '/' || s[k - 1] == '.') && bound_at(s, 1).is_some() { s.subrange(0, bound_at(s, 1).unwrap()) + "/"@ + s } else { s.subrange(0, k) + "/"@ + s },
        None => s,
    }
}
pub open spec fn p_index2(t: FileType, i: ObjectId) -> Option<Str> {
    match p_symstore(t, i, false) { Some(s) => Some(index2(s)), None => None }
}
pub open spec fn p_debuginfod(t: FileType, i: ObjectId) -> Option<Str> {
    match code_of(i) {
        Some(c) if c.len() > 0 => match t { FileType::ElfCode => Some(c + "/executable"@), FileType::ElfDebug => Some(c + "/debuginfo"@), _ => None },
        _ => None,
    }
}
/// the identifier of the unified layout
pub open spec fn code_type(o: ObjectType) -> Option<FileType> {
    match o {
        ObjectType::Elf => Some(FileType::ElfCode),
        ObjectType::Macho => Some(FileType::MachCode),
        ObjectType::Pe => Some(FileType::Pe),
        ObjectType::Wasm => Some(FileType::WasmCode),
        ObjectType::PeDotnet => Some(FileType::PortablePdb),
        ObjectType::Unknown => None,
    }
}
pub open spec fn target_id0(t: FileType, i: ObjectId) -> Option<Str> {
    match t {
        FileType::Pe | FileType::Pdb | FileType::PortablePdb => match i.debug_id { Some(d) => Some(s_lower(breakpad_of(d))), None => None },
        FileType::MachCode | FileType::MachDebug | FileType::WasmDebug | FileType::WasmCode | FileType::UuidMap | FileType::BcSymbolMap =>
            match i.code_id { Some(c) => Some(c.view()), None => match i.debug_id { Some(d) => Some(uuid_lower(debug_uuid(d).bytes())), None => None } },
        FileType::ElfCode | FileType::ElfDebug => code_of(i),
        _ => None,
    }
}
pub open spec fn target_id(t: FileType, i: ObjectId) -> Option<Str> {
    match t {
        FileType::SourceBundle | FileType::Breakpad | FileType::Il2cpp => match code_type(i.object_type) { Some(x) => target_id0(x, i), None => None },
        _ => target_id0(t, i),
    }
}
pub open spec fn unified_suffix(t: FileType) -> Str {
    match t {
        FileType::ElfCode | FileType::MachCode | FileType::Pe | FileType::WasmCode => "executable"@,
        FileType::ElfDebug | FileType::MachDebug | FileType::Pdb | FileType::WasmDebug | FileType::PortablePdb => "debuginfo"@,
        FileType::Breakpad => "breakpad"@,
        FileType::SourceBundle => "sourcebundle"@,
        FileType::UuidMap => "uuidmap"@,
        FileType::BcSymbolMap => "bcsymbolmap"@,
        FileType::Il2cpp => "il2cpp"@,
        FileType::Proguard => "proguard"@,
    }
}
pub open spec fn p_unified(t: FileType, i: ObjectId) -> Option<Str> {
    match target_id(t, i) {
        Some(id) => match bound_at(id, 2) {
            Some(k) => Some(id.subrange(0, k) + "/"@ + id.subrange(k, id.len() as int) + "/"@ + unified_suffix(t)),
            None => None,
        },
        None => None,
    }
}
pub open spec fn p_slash(i: ObjectId) -> Option<Str> {
    match (code_of(i), file_name_of(i.code_file)) { (Some(c), Some(f)) => Some(f + "/"@ + c + "/symbols"@), _ => None }
}
pub open spec fn layout_paths(l: DirectoryLayoutType, t: FileType, i: ObjectId) -> Seq<Str> {
    match l {
        DirectoryLayoutType::Native => p_native(t, i),
        DirectoryLayoutType::Symstore => one(p_symstore(t, i, false)),
        DirectoryLayoutType::SymstoreIndex2 => one(p_index2(t, i)),
        DirectoryLayoutType::Ssqp => one(p_symstore(t, i, true)),
        DirectoryLayoutType::Debuginfod => one(p_debuginfod(t, i)),
        DirectoryLayoutType::Unified => one(p_unified(t, i)),
        DirectoryLayoutType::SlashSymbols => one(p_slash(i)),
    }
}
pub open spec fn cased(c: FilenameCasing, s: Str) -> Str {
    match c { FilenameCasing::Default => s, FilenameCasing::Uppercase => a_upper(s), FilenameCasing::Lowercase => a_lower(s) }
}
pub open spec fn compressed(s: Str) -> Str { (if s.len() > 0 { s.drop_last() } else { s }).push('_') }
/// lowest priority first
pub open spec fn with_compressed(p: Seq<Str>) -> Seq<Str>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { with_compressed(p.drop_last()) + seq![compressed(p.last()), p.last()] }
}
pub open spec fn all_paths(l: DirectoryLayout, t: FileType, i: ObjectId) -> Seq<Str> {
    let base = layout_paths(l.ty, t, i);
    let c = Seq::new(base.len(), |k: int| cased(l.casing, base[k]));
    if t == FileType::Pdb || t == FileType::Pe { with_compressed(c) } else { c }
}
pub open spec fn vview(v: Seq<String>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k]@) }
