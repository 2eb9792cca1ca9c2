//! Generators of object files, and a runner for the symsorter binary built from /repo.
use std::io::{Cursor, Write};
use std::path::{Path, PathBuf};
use symbolic::debuginfo::{Archive, FileFormat, ObjectKind};
use symbolicator_sources::*;
use vp_src::rng::Rng;

fn p(v: &mut Vec<u8>, b: &[u8]) { v.extend_from_slice(b) }
fn p16(v: &mut Vec<u8>, x: u16) { p(v, &x.to_le_bytes()) }
fn p32(v: &mut Vec<u8>, x: u32) { p(v, &x.to_le_bytes()) }
fn p64(v: &mut Vec<u8>, x: u64) { p(v, &x.to_le_bytes()) }

/// 64-bit ELF: kind 0 = shared library with text, 1 = debug companion (no text); build id as a note section
pub fn elf(kind: u32, build_id: Option<&[u8]>, salt: u32) -> Vec<u8> {
    let mut names = vec![0u8];
    let mut body: Vec<u8> = vec![];
    let mut secs: Vec<(u32, u32, u64, u64, u64)> = vec![(0, 0, 0, 0, 0)]; // name, type, flags, off, size
    let mut add = |names: &mut Vec<u8>, body: &mut Vec<u8>, n: &str, ty: u32, fl: u64, d: &[u8]| {
        while body.len() % 8 != 0 { body.push(0); }
        let no = names.len() as u32; p(names, n.as_bytes()); names.push(0);
        secs.push((no, ty, fl, 64 + body.len() as u64, d.len() as u64)); p(body, d);
    };
    if kind == 0 { add(&mut names, &mut body, ".text", 1, 6, &[salt.to_le_bytes(), [0xc3; 4], salt.to_be_bytes(), [0x90; 4]].concat()); }
    else { add(&mut names, &mut body, ".debug_str", 1, 0, &[salt.to_le_bytes(), [0; 4]].concat()); }
    if let Some(b) = build_id {
        let mut n = vec![]; p32(&mut n, 4); p32(&mut n, b.len() as u32); p32(&mut n, 3); p(&mut n, b"GNU\0"); p(&mut n, b); while n.len() % 4 != 0 { n.push(0); }
        add(&mut names, &mut body, ".note.gnu.build-id", 7, 2, &n);
    }
    let no = names.len() as u32; p(&mut names, b".shstrtab\0");
    while body.len() % 8 != 0 { body.push(0); }
    secs.push((no, 3, 0, 64 + body.len() as u64, names.len() as u64)); p(&mut body, &names);
    while body.len() % 8 != 0 { body.push(0); }
    let mut v = vec![];
    p(&mut v, b"\x7fELF\x02\x01\x01\0\0\0\0\0\0\0\0\0");
    p16(&mut v, 3); p16(&mut v, 0x3e); p32(&mut v, 1); p64(&mut v, 0); p64(&mut v, 0); p64(&mut v, 64 + body.len() as u64); p32(&mut v, 0);
    p16(&mut v, 64); p16(&mut v, 56); p16(&mut v, 0); p16(&mut v, 64); p16(&mut v, secs.len() as u16); p16(&mut v, secs.len() as u16 - 1);
    p(&mut v, &body);
    for (n, ty, fl, off, sz) in &secs { p32(&mut v, *n); p32(&mut v, *ty); p64(&mut v, *fl); p64(&mut v, 0); p64(&mut v, *off); p64(&mut v, *sz); p32(&mut v, 0); p32(&mut v, 0); p64(&mut v, if *ty == 7 { 4 } else { 1 }); p64(&mut v, 0); }
    v
}
/// 64-bit Mach-O: ty 2 = executable, 6 = library, 10 = dSYM
pub fn macho(ty: u32, uuid: Option<[u8; 16]>, cpu: u32, salt: u32) -> Vec<u8> {
    let mut v = vec![];
    p32(&mut v, 0xfeedfacf); p32(&mut v, cpu); p32(&mut v, 3); p32(&mut v, ty);
    let n = 1 + uuid.is_some() as u32;
    p32(&mut v, n); p32(&mut v, 16 * (n - 1) + 8 * (n - 1) + 16); p32(&mut v, 0); p32(&mut v, 0);
    if let Some(u) = uuid { p32(&mut v, 0x1b); p32(&mut v, 24); p(&mut v, &u); }
    p32(&mut v, 0x2a); p32(&mut v, 16); p64(&mut v, salt as u64); // LC_SOURCE_VERSION
    v
}
pub fn fat(parts: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![]; p(&mut v, &0xcafebabeu32.to_be_bytes()); p(&mut v, &(parts.len() as u32).to_be_bytes());
    let mut off = (8 + 20 * parts.len() + 63) / 64 * 64; let mut offs = vec![];
    for (cpu, d) in parts { for x in [*cpu, 3, off as u32, d.len() as u32, 4] { p(&mut v, &x.to_be_bytes()); } offs.push(off); off = (off + d.len() + 63) / 64 * 64; }
    for (o, (_, d)) in offs.iter().zip(parts) { while v.len() < *o { v.push(0); } p(&mut v, d); }
    v
}
fn leb(v: &mut Vec<u8>, mut x: usize) { loop { let b = (x & 0x7f) as u8; x >>= 7; if x == 0 { v.push(b); return; } v.push(b | 0x80); } }
pub fn wasm(debug: bool, build_id: Option<&[u8]>, salt: u32) -> Vec<u8> {
    let mut v = b"\0asm\x01\0\0\0".to_vec();
    let custom = |v: &mut Vec<u8>, n: &str, d: &[u8]| { let mut s = vec![]; leb(&mut s, n.len()); p(&mut s, n.as_bytes()); p(&mut s, d); v.push(0); leb(v, s.len()); p(v, &s); };
    p(&mut v, &[1, 4, 1, 0x60, 0, 0]); p(&mut v, &[3, 2, 1, 0]);
    p(&mut v, &[10, 4, 1, 2, 0, 0x0b]);
    if debug { custom(&mut v, ".debug_str", &salt.to_le_bytes()); } else { custom(&mut v, "salt", &salt.to_le_bytes()); }
    if let Some(b) = build_id { let mut d = vec![]; leb(&mut d, b.len()); p(&mut d, b); custom(&mut v, "build_id", &d); }
    v
}
/// PE32+ with a CodeView record
pub fn pe(guid: [u8; 16], age: u32, stamp: u32, size: u32, dll: bool) -> Vec<u8> {
    let mut v = b"MZ".to_vec(); v.resize(0x3c, 0); p32(&mut v, 0x40);
    p(&mut v, b"PE\0\0"); p16(&mut v, 0x8664); p16(&mut v, 1); p32(&mut v, stamp); p32(&mut v, 0); p32(&mut v, 0); p16(&mut v, 240); p16(&mut v, if dll { 0x2022 } else { 0x22 });
    p16(&mut v, 0x20b); p(&mut v, &[14, 0]); p32(&mut v, 0x200); p32(&mut v, 0); p32(&mut v, 0); p32(&mut v, 0x1000); p32(&mut v, 0x1000); p64(&mut v, 0x140000000); p32(&mut v, 0x1000); p32(&mut v, 0x200);
    p16(&mut v, 6); p16(&mut v, 0); p16(&mut v, 0); p16(&mut v, 0); p16(&mut v, 6); p16(&mut v, 0); p32(&mut v, 0); p32(&mut v, size); p32(&mut v, 0x200); p32(&mut v, 0); p16(&mut v, 3); p16(&mut v, 0);
    for _ in 0..4 { p64(&mut v, 0x1000); } p32(&mut v, 0); p32(&mut v, 16);
    for i in 0..16 { if i == 6 { p32(&mut v, 0x1000); p32(&mut v, 28); } else { p64(&mut v, 0); } }
    p(&mut v, b".rdata\0\0"); p32(&mut v, 0x200); p32(&mut v, 0x1000); p32(&mut v, 0x200); p32(&mut v, 0x200); p32(&mut v, 0); p32(&mut v, 0); p32(&mut v, 0); p32(&mut v, 0x40000040);
    v.resize(0x200, 0);
    p32(&mut v, 0); p32(&mut v, stamp); p32(&mut v, 0); p32(&mut v, 2); p32(&mut v, 30); p32(&mut v, 0x1040); p32(&mut v, 0x240);
    v.resize(0x240, 0); p(&mut v, b"RSDS"); p(&mut v, &guid); p32(&mut v, age); p(&mut v, b"a.pdb\0"); v.resize(0x400, 0);
    v
}
pub fn bundle(debug_id: Option<&str>, code_id: Option<&str>, salt: u32) -> Vec<u8> {
    let mut out = vec![];
    let mut w = symbolic::debuginfo::sourcebundle::SourceBundleWriter::start(Cursor::new(&mut out)).unwrap();
    if let Some(d) = debug_id { w.set_attribute("debug_id", d); }
    if let Some(c) = code_id { w.set_attribute("code_id", c); }
    w.set_attribute("arch", "x86_64");
    let mut fi = symbolic::debuginfo::sourcebundle::SourceFileInfo::new(); fi.set_path("a.c".to_string());
    w.add_file(format!("a{salt}.c"), format!("int x = {salt};").as_bytes(), fi).unwrap();
    w.finish().unwrap();
    out
}
pub fn zip_of(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut w = zip::ZipWriter::new(Cursor::new(vec![]));
    for (n, d) in files { w.start_file(n.as_str(), zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Deflated)).unwrap(); w.write_all(d).unwrap(); }
    w.finish().unwrap().into_inner()
}
/// fixture with its GUID replaced (PDB, portable PDB)
pub fn patched(rel: &str, guid: &str, new: [u8; 16]) -> Option<Vec<u8>> {
    let mut d = std::fs::read(format!("{}/tests/fixtures/symbols/{rel}", "@REPO@")).ok()?;
    let g = u128::from_str_radix(guid, 16).ok()?.to_be_bytes();
    let g = [g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]];
    let at: Vec<usize> = (0..d.len().saturating_sub(16)).filter(|i| d[*i..*i + 16] == g).collect();
    if at.is_empty() { return None; }
    for i in at { d[i..i + 16].copy_from_slice(&new); }
    Some(d)
}
pub fn rb(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.below(256) as u8).collect() }
pub fn rb16(r: &mut Rng) -> [u8; 16] { rb(r, 16).try_into().unwrap() }

/// what a lookup asks for: (file type, module's object type)
pub fn asked(f: FileFormat, k: ObjectKind) -> Option<(FileType, ObjectType)> {
    let dbg = k == ObjectKind::Debug; let code = matches!(k, ObjectKind::Library | ObjectKind::Executable);
    Some(match f {
        FileFormat::Elf if dbg => (FileType::ElfDebug, ObjectType::Elf), FileFormat::Elf if code => (FileType::ElfCode, ObjectType::Elf),
        FileFormat::MachO if dbg => (FileType::MachDebug, ObjectType::Macho), FileFormat::MachO if code => (FileType::MachCode, ObjectType::Macho),
        FileFormat::Wasm if dbg => (FileType::WasmDebug, ObjectType::Wasm), FileFormat::Wasm if code => (FileType::WasmCode, ObjectType::Wasm),
        FileFormat::Pe if code => (FileType::Pe, ObjectType::Pe), FileFormat::Pdb if dbg => (FileType::Pdb, ObjectType::Pe),
        FileFormat::PortablePdb if dbg => (FileType::PortablePdb, ObjectType::PeDotnet),
        _ => return None,
    })
}
#[derive(Debug, Clone)]
pub struct Obj { pub format: FileFormat, pub kind: ObjectKind, pub code: Option<symbolic::common::CodeId>, pub debug: symbolic::common::DebugId, pub data: Vec<u8> }
/// the objects of a file, or nothing if it does not parse
pub fn objects(d: &[u8]) -> Vec<Obj> {
    let Ok(a) = Archive::parse(d) else { return vec![] };
    a.objects().filter_map(|o| o.ok()).map(|o| Obj { format: o.file_format(), kind: o.kind(), code: o.code_id(), debug: o.debug_id(), data: o.data().to_vec() }).collect()
}
impl Obj {
    pub fn storable(&self) -> bool { matches!(self.kind, ObjectKind::Executable | ObjectKind::Library | ObjectKind::Debug | ObjectKind::Sources) }
    pub fn identity(&self, m: ObjectType) -> ObjectId { ObjectId { code_id: self.code.clone(), code_file: None, debug_id: Some(self.debug), debug_file: None, debug_checksum: None, object_type: m } }
    /// where the sorter has to put it (the documented unified layout)
    pub fn place(&self) -> Option<String> {
        let id = match &self.code { Some(c) if self.format != FileFormat::Pe => c.as_str().to_string(), _ => { if self.debug.is_nil() { return None; } self.debug.breakpad().to_string().to_lowercase() } };
        if id.len() < 2 { return None; }
        let s = match self.kind { ObjectKind::Debug => "debuginfo", ObjectKind::Sources if self.format == FileFormat::SourceBundle => "sourcebundle", ObjectKind::Library | ObjectKind::Executable => "executable", _ => return None };
        Some(format!("{}/{}/{s}", &id[..2], &id[2..]))
    }
}
/// scratch directory, removed on drop
pub struct Scratch(pub PathBuf);
impl Scratch { pub fn new(n: &str) -> Scratch { let p = std::env::temp_dir().join(format!("vp-srt-{n}-{}", std::process::id())); let _ = std::fs::remove_dir_all(&p); std::fs::create_dir_all(&p).unwrap(); Scratch(p) } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn symsorter() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("symsorter") }
pub struct Ran { pub ok: bool, pub out: String, pub err: String }
/// runs the sorter in a scratch directory of its own
pub fn sort(cwd: &Path, args: &[&str]) -> Ran {
    let o = std::process::Command::new(symsorter()).args(args).current_dir(cwd).output().unwrap();
    Ran { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}
/// every file below a directory: relative path -> content
pub fn tree(d: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    walkdir::WalkDir::new(d).into_iter().filter_map(|e| e.ok()).filter(|e| e.file_type().is_file()).map(|e| (e.path().strip_prefix(d).unwrap().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap())).collect()
}
/// objects of all formats with random identifiers
pub fn corpus(r: &mut Rng, n: usize) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for k in 0..n as u32 {
        let idlen = [1, 2, 8, 16, 20, 32][r.below(6)];
        let id = rb(r, idlen); let u = rb16(r);
        let bid = r.below(6) > 0;
        let hexid: String = id.iter().map(|b| format!("{b:02x}")).collect();
        let (name, d) = match r.below(9) {
            0 => (format!("e{k}.so"), elf(0, bid.then_some(&id[..]), k)),
            1 => (format!("e{k}.debug"), elf(1, bid.then_some(&id[..]), k)),
            2 => (format!("m{k}"), macho([2, 6, 10][r.below(3)], bid.then_some(u), 0x1000007, k)),
            3 => (format!("w{k}.wasm"), wasm(r.below(2) == 0, bid.then_some(&id[..]), k)),
            4 => (format!("p{k}.dll"), pe(u, [1, 0, 0xfffffff0, 16][r.below(4)], k * 7 + 1, 0x1000 + k, r.below(2) == 0)),
            5 => (format!("f{k}"), fat(&[(0x1000007, macho(10, Some(u), 0x1000007, k)), (0x100000c, macho(10, Some(rb16(r)), 0x100000c, k))])),
            6 => (format!("b{k}.src"), bundle(Some(["3249d99d-0c40-4931-8610-f4e4fb0b6936-1", "dfb8e43a-f242-3d73-a453-aeb6a777ef75-feedface", "5e618b9f-54a1-4389-b196-519819dd7c47"][r.below(3)]), bid.then_some(&hexid), k)),
            7 => match patched("crash.pdb/3249D99D0C4049318610F4E4FB0B69361/crash.pdb", "3249D99D0C4049318610F4E4FB0B6936", u) { Some(d) => (format!("c{k}.pdb"), d), None => continue },
            _ => match patched("integration.pdb/0C1033F78632492E91C6C314B72E1920ffffffff/integration.pdb", "0C1033F78632492E91C6C314B72E1920", u) { Some(d) => (format!("i{k}.pdb"), d), None => continue },
        };
        v.push((name, d));
    }
    v
}
