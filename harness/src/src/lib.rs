//! Shared by the replay harnesses: deterministic generator, reporter, and the executable form of the
//! spec functions of props/paths_spec.rs.
pub mod rng;
use rng::*;
use std::collections::HashSet;
use symbolic::common::{CodeId, DebugId};
use symbolicator_sources::*;

pub struct Rep { pub cases: usize, seen: HashSet<u64>, fails: usize, samples: usize }
impl Rep {
    pub fn new(rule: &str) -> Rep { println!("RULE {rule}"); std::panic::set_hook(Box::new(|_| {})); Rep { cases: 0, seen: HashSet::new(), fails: 0, samples: 0 } }
    pub fn case<T: std::hash::Hash>(&mut self, t: T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h);
        self.cases += 1; self.seen.insert(h.finish());
    }
    pub fn sample(&mut self, s: String) { if self.samples < 3 { self.samples += 1; println!("SAMPLE {}", s.replace('\n', "\\n")); } }
    pub fn fail(&mut self, key: &str, s: String) { self.fails += 1; if self.fails <= 30 { println!("FAIL {key} {}", s.replace('\n', "\\n").replace('\r', "\\r")); } }
    pub fn done(self) { println!("CASES {} {}", self.cases, self.seen.len()); }
}
pub fn thorough() -> bool { std::env::var("VERIF_TIER").as_deref() == Ok("thorough") }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
/// a panic of the code under test is reported as Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

pub const LAYOUTS: [DirectoryLayoutType; 7] = [DirectoryLayoutType::Native, DirectoryLayoutType::Symstore, DirectoryLayoutType::SymstoreIndex2, DirectoryLayoutType::Ssqp, DirectoryLayoutType::Debuginfod, DirectoryLayoutType::Unified, DirectoryLayoutType::SlashSymbols];
pub const CASINGS: [FilenameCasing; 3] = [FilenameCasing::Default, FilenameCasing::Uppercase, FilenameCasing::Lowercase];
pub const OTYPES: [ObjectType; 6] = [ObjectType::Elf, ObjectType::Macho, ObjectType::Pe, ObjectType::Wasm, ObjectType::PeDotnet, ObjectType::Unknown];
pub const FTYPES: [FileType; 15] = [FileType::Pe, FileType::Pdb, FileType::PortablePdb, FileType::MachDebug, FileType::MachCode, FileType::ElfDebug, FileType::ElfCode, FileType::WasmDebug, FileType::WasmCode, FileType::Breakpad, FileType::SourceBundle, FileType::UuidMap, FileType::BcSymbolMap, FileType::Il2cpp, FileType::Proguard];

pub fn names() -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = vec![None];
    for s in ["", "a", "crash", "Crash.pdb", "CRASH.EXE", "crash.exe", "crash.dll", "crash.dll.so", "kernel32.pdb", "foo.exe.dll", "foo.pdb.exe", ".exe", "libc.so.6", "C:\\Windows\\System32\\ntdll.dll", "/usr/lib/libFoo.so", "/usr/lib/", "..", ".", "/", "a/..", "a\\..", "\\", "x\ny", "tab\tx", "Stra\u{df}e.PDB", "\u{130}stanbul.pdb", "\u{212a}ernel.dll", "a.b.c.d", "noext", "..foo", "...", "foo bar.pdb", "a%2fb.pdb", "q?x#y", "_.debug", "/", "a.sym", ".a", "a/b\\c.dll"] { v.push(Some(s.to_string())); }
    v.push(Some("x".repeat(255))); v.push(Some("x".repeat(256))); v.push(Some("\u{e9}".repeat(127))); v.push(Some("\u{e9}".repeat(128)));
    v
}
pub fn code_ids() -> Vec<Option<CodeId>> {
    let mut v = vec![None];
    for s in ["", "a", "ab", "abc", "deadbeef", "5ab380779000", "5AB38077", "5AB380779000", "180a373d6afbabf0eb1f09be1bc45bd796a71085", "67e9247c814e392ba027dbde6748fcbf", "abcdef12", "abcdef1", "67e9247c-814e-392b-a027-dbde6748fcbf"] { v.push(Some(CodeId::new(s.to_string()))); }
    v
}
pub fn debug_ids() -> Vec<Option<DebugId>> {
    let mut v = vec![None];
    for s in ["3249d99d-0c40-4931-8610-f4e4fb0b6936-1", "3249d99d-0c40-4931-8610-f4e4fb0b6936-0", "DFB8E43A-F242-3D73-A453-AEB6A777EF75-feedface", "ffffffff-ffff-ffff-ffff-ffffffffffff-ffffffff", "00000000-0000-0000-0000-000000000000", "3249d99d-0c40-4931-8610-f4e4fb0b6936-a"] { v.push(Some(s.parse().unwrap())); }
    v
}
pub fn oid(o: ObjectType, ci: &Option<CodeId>, cf: &Option<String>, di: &Option<DebugId>, df: &Option<String>) -> ObjectId {
    ObjectId { code_id: ci.clone(), code_file: cf.clone(), debug_id: *di, debug_file: df.clone(), debug_checksum: None, object_type: o }
}
pub fn rand_name(r: &mut Rng) -> Option<String> {
    let n = names();
    if r.below(3) > 0 { return n[r.below(n.len())].clone(); }
    let cs = ['a', 'Z', '.', '/', '\\', ' ', 'p', 'd', 'b', 'e', 'x', '\u{e9}', '\u{130}', '-', '_', '0', '\u{7f}', '%'];
    let mut s = String::new();
    for _ in 0..r.below(12) { s.push(cs[r.below(cs.len())]); }
    s.push_str(["", ".exe", ".dll", ".pdb", ".so", ".sym", ".PDB"][r.below(7)]);
    Some(s)
}
pub fn rand_id(r: &mut Rng) -> ObjectId {
    let c = code_ids(); let d = debug_ids();
    let (cf, df) = (rand_name(r), rand_name(r));
    oid(OTYPES[r.below(6)], &c[r.below(c.len())], &cf, &d[r.below(d.len())], &df)
}
/// every identity of the small product plus random ones
pub fn identities(seed: u64, n: usize) -> Vec<ObjectId> {
    let mut v = vec![];
    let (cs, ds) = (code_ids(), debug_ids());
    for o in OTYPES {
        for c in &cs { v.push(oid(o, c, &Some("lib/Foo.dll".into()), &ds[1], &Some("c:\\x\\Foo.pdb".into()))); v.push(oid(o, c, &None, &None, &None)); }
        for d in &ds { v.push(oid(o, &cs[9], &Some("lib/Foo.so".into()), d, &Some("c:\\x\\Foo.exe".into()))); v.push(oid(o, &None, &None, d, &None)); }
        for f in names() { v.push(oid(o, &cs[6], &f, &ds[3], &f)); v.push(oid(o, &cs[6], &f, &ds[1], &None)); v.push(oid(o, &cs[6], &None, &ds[1], &f)); }
    }
    let mut r = Rng::new(seed);
    for _ in 0..n { v.push(rand_id(&mut r)); }
    v
}

// ---- executable spec -------------------------------------------------------------------------
pub fn base(s: &str) -> &str {
    let t = s.trim_end_matches(['/', '\\']);
    let t = if t.is_empty() { s } else { t };
    // as split_path: the part after the last separator
    match t.rfind(['/', '\\']) { Some(i) => &t[i + 1..], None => t }
}
pub fn ok_name(f: &Option<String>) -> Option<String> {
    let f = f.as_ref()?;
    let b = symbolic::common::split_path(f).1;
    if b.is_empty() || b == "." || b == ".." || b.len() >= 256 || b.chars().any(char::is_control) { None } else { Some(b.to_string()) }
}
fn hex(b: &[u8], up: bool) -> String { b.iter().map(|x| if up { format!("{x:02X}") } else { format!("{x:02x}") }).collect() }
fn code(i: &ObjectId) -> Option<String> { i.code_id.as_ref().map(|c| c.as_str().to_string()) }
fn fold(s: String, f: bool) -> String { if f { s.to_lowercase() } else { s } }
fn gdb(i: &ObjectId) -> Option<String> { let c = code(i)?; if c.len() < 2 { return None; } Some(format!("{}/{}", &c[..2], &c[2..])) }
fn uuid_of(i: &ObjectId) -> Option<Vec<u8>> {
    match code(i) {
        Some(c) => c.parse::<symbolic::common::Uuid>().ok().map(|u| u.as_bytes().to_vec()),
        None => i.debug_id.map(|d| d.uuid().as_bytes().to_vec()),
    }
}
fn lldb(i: &ObjectId) -> Option<String> {
    let h = hex(&uuid_of(i)?, true);
    Some(format!("{}/{}/{}/{}/{}/{}", &h[..4], &h[4..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]))
}
fn pdb(i: &ObjectId, q: bool) -> Option<String> {
    let f = fold(ok_name(&i.debug_file)?, q);
    let d = i.debug_id?;
    let age = if i.object_type == ObjectType::PeDotnet { u32::MAX } else { d.appendix() };
    let h = hex(d.uuid().as_bytes(), !q);
    let sig = if q { format!("{h}{age:X}") } else { format!("{h}{age:x}") };
    Some(format!("{f}/{sig}/{f}"))
}
fn pe(i: &ObjectId, q: bool) -> Option<String> {
    let f = ok_name(&i.code_file)?; let c = code(i)?;
    if q { let f = f.to_lowercase(); return Some(format!("{f}/{c}/{f}")); }
    if c.len() < 8 { return None; }
    Some(format!("{f}/{}{}/{f}", c[..8].to_uppercase(), c[8..].to_lowercase()))
}
fn bp_stem(i: &ObjectId) -> Option<String> {
    if i.object_type == ObjectType::Wasm { return None; }
    let f = ok_name(&i.debug_file)?; let d = i.debug_id?;
    let mut stem = f.as_str();
    for e in [".exe", ".dll", ".pdb"] { if f.ends_with(e) { stem = &f[..f.len() - 4]; break; } }
    Some(format!("{f}/{}{:x}/{stem}", hex(d.uuid().as_bytes(), true), d.appendix()))
}
fn no_ext(p: String) -> String { match p.rfind('.') { Some(k) => p[..k].to_string(), None => p } }
fn native(t: FileType, i: &ObjectId) -> Vec<String> {
    use FileType::*;
    let o = match t {
        ElfCode | WasmCode => gdb(i),
        ElfDebug | WasmDebug => gdb(i).map(|p| p + ".debug"),
        MachCode => lldb(i).map(|p| p + ".app"),
        MachDebug => lldb(i),
        Pdb | PortablePdb => pdb(i, false),
        Pe => pe(i, false),
        Breakpad => bp_stem(i).map(|p| p + ".sym"),
        SourceBundle => {
            let p = match i.object_type {
                ObjectType::Pe | ObjectType::PeDotnet => pdb(i, false).map(no_ext),
                ObjectType::Macho => lldb(i),
                ObjectType::Elf | ObjectType::Wasm => gdb(i),
                ObjectType::Unknown => None,
            };
            let Some(p) = p else { return vec![] };
            let p = p + ".src.zip";
            return match bp_stem(i).map(|b| b + ".src.zip") { Some(b) if b != p => vec![b, p], _ => vec![p] };
        }
        _ => None,
    };
    o.into_iter().collect()
}
pub fn symstore(t: FileType, i: &ObjectId, q: bool) -> Option<String> {
    use FileType::*;
    match t {
        ElfCode => { let f = fold(ok_name(&i.code_file)?, q); Some(format!("{f}/elf-buildid-{}/{f}", code(i)?)) }
        ElfDebug => Some(format!("_.debug/elf-buildid-sym-{}/_.debug", code(i)?)),
        MachCode => { let f = fold(ok_name(&i.code_file)?, q); Some(format!("{f}/mach-uuid-{}/{f}", hex(&uuid_of(i)?, false))) }
        MachDebug => Some(format!("_.dwarf/mach-uuid-sym-{}/_.dwarf", hex(&uuid_of(i)?, false))),
        Pdb | PortablePdb => pdb(i, q),
        Pe => pe(i, q),
        SourceBundle if i.object_type == ObjectType::Pe => pdb(i, q).map(|p| no_ext(p) + ".src.zip"),
        _ => None,
    }
}
fn index2(s: String) -> String {
    match s.get(..2) {
        None => s,
        Some(p) => {
            let b = p.as_bytes()[1];
            if b == b'/' || b == b'.' { format!("{}/{s}", &p[..1]) } else { format!("{p}/{s}") }
        }
    }
}
fn debuginfod(t: FileType, i: &ObjectId) -> Option<String> {
    let c = code(i)?; if c.is_empty() { return None; }
    match t { FileType::ElfCode => Some(c + "/executable"), FileType::ElfDebug => Some(c + "/debuginfo"), _ => None }
}
pub fn unified_id(t: FileType, i: &ObjectId) -> Option<String> {
    use FileType::*;
    let t = match t {
        SourceBundle | Breakpad | Il2cpp => match i.object_type { ObjectType::Elf => ElfCode, ObjectType::Macho => MachCode, ObjectType::Pe => Pe, ObjectType::Wasm => WasmCode, ObjectType::PeDotnet => PortablePdb, ObjectType::Unknown => return None },
        t => t,
    };
    match t {
        Pe | Pdb | PortablePdb => { let d = i.debug_id?; Some(format!("{}{:x}", hex(d.uuid().as_bytes(), false), d.appendix())) }
        MachCode | MachDebug | WasmDebug | WasmCode | UuidMap | BcSymbolMap => match code(i) { Some(c) => Some(c), None => Some(hex(i.debug_id?.uuid().as_bytes(), false)) },
        ElfCode | ElfDebug => code(i),
        _ => None,
    }
}
pub fn unified(t: FileType, i: &ObjectId) -> Option<String> {
    use FileType::*;
    let s = match t {
        ElfCode | MachCode | Pe | WasmCode => "executable", ElfDebug | MachDebug | Pdb | WasmDebug | PortablePdb => "debuginfo",
        Breakpad => "breakpad", SourceBundle => "sourcebundle", UuidMap => "uuidmap", BcSymbolMap => "bcsymbolmap", Il2cpp => "il2cpp", Proguard => "proguard",
    };
    let id = unified_id(t, i)?;
    if id.len() < 2 { return None; }
    Some(format!("{}/{}/{s}", &id[..2], &id[2..]))
}
fn slash(i: &ObjectId) -> Option<String> { let f = ok_name(&i.code_file)?; Some(format!("{f}/{}/symbols", code(i)?)) }
/// lowest priority first, as get_directory_paths documents
pub fn layout(l: DirectoryLayout, t: FileType, i: &ObjectId) -> Vec<String> {
    let v: Vec<String> = match l.ty {
        DirectoryLayoutType::Native => native(t, i),
        DirectoryLayoutType::Symstore => symstore(t, i, false).into_iter().collect(),
        DirectoryLayoutType::SymstoreIndex2 => symstore(t, i, false).map(index2).into_iter().collect(),
        DirectoryLayoutType::Ssqp => symstore(t, i, true).into_iter().collect(),
        DirectoryLayoutType::Debuginfod => debuginfod(t, i).into_iter().collect(),
        DirectoryLayoutType::Unified => unified(t, i).into_iter().collect(),
        DirectoryLayoutType::SlashSymbols => slash(i).into_iter().collect(),
    };
    let v: Vec<String> = v.into_iter().map(|p| match l.casing { FilenameCasing::Default => p, FilenameCasing::Uppercase => p.to_ascii_uppercase(), FilenameCasing::Lowercase => p.to_ascii_lowercase() }).collect();
    if t == FileType::Pdb || t == FileType::Pe {
        v.into_iter().flat_map(|p| { let mut c = p.clone(); c.pop(); c.push('_'); [c, p] }).collect()
    } else { v }
}
