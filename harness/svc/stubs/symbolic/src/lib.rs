//! Stand-in with the part of the interface the services use; the real crate is not available offline.
#![allow(warnings)]

pub use symbolic_common as common;
pub use symbolic_debuginfo as debuginfo;
pub use symbolic_ppdb as ppdb;
pub mod cfi { pub const CFICACHE_LATEST_VERSION: u32 = 2; }
pub mod demangle {
    #[derive(Clone, Copy, Debug)] pub struct DemangleOptions;
    impl DemangleOptions { pub const fn complete() -> Self { Self } pub const fn name_only() -> Self { Self } pub const fn return_type(self, _: bool) -> Self { self } pub const fn parameters(self, _: bool) -> Self { self } }
    /// names of the form `_Zname` stand for `name`
    pub trait Demangle { fn demangle(&self, _: DemangleOptions) -> Option<String>; fn detect_language(&self) -> symbolic_common::Language { symbolic_common::Language::Unknown } }
    impl Demangle for symbolic_common::Name<'_> { fn demangle(&self, _: DemangleOptions) -> Option<String> { self.as_str().strip_prefix("_Z").map(String::from) } }
}
pub mod il2cpp {
    #[derive(Clone, Debug)] pub struct LineMapping;
    impl LineMapping { pub fn parse(_: &[u8]) -> Option<Self> { Some(LineMapping) } }
}
/// one line of text for each symbol of the object: start, end (0 if open), line, file, name
pub mod symcache {
    use symbolic_common::{Arch, AsSelf, Language, Name, NameMangling};
    pub const SYMCACHE_VERSION: u32 = 8;
    #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("stub") } } impl std::error::Error for Error {}
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Rec { start: u64, end: u64, line: u32, file: String, name: String }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SymCache<'a>(&'a [u8], Arch, Vec<Rec>);
    impl<'s, 'a> AsSelf<'s> for SymCache<'a> { type Ref = SymCache<'s>; fn as_self(&'s self) -> &'s SymCache<'s> { self } }
    impl<'a> SymCache<'a> {
        pub fn parse(b: &'a [u8]) -> Result<Self, Error> {
            let t = std::str::from_utf8(b).map_err(|_| Error)?; let mut l = t.lines(); let arch = l.next().and_then(|a| a.strip_prefix("SYMCACHE "));
            // the caches of the other replays hold anything
            let Some(arch) = arch else { return Ok(SymCache(b, Arch::Unknown, vec![])); };
            let mut v = vec![];
            for x in l { let f: Vec<&str> = x.split('\t').collect(); if f.len() != 5 { return Err(Error); } v.push(Rec { start: f[0].parse().map_err(|_| Error)?, end: f[1].parse().map_err(|_| Error)?, line: f[2].parse().map_err(|_| Error)?, file: f[3].into(), name: f[4].into() }); }
            Ok(SymCache(b, arch.parse().unwrap_or_default(), v))
        }
        pub fn arch(&self) -> Arch { self.1 }
        pub fn lookup(&self, a: u64) -> std::vec::IntoIter<SourceLocation<'_>> {
            if a > u32::MAX as u64 { return vec![].into_iter(); }
            let r: Option<&Rec> = self.2.iter().rev().find(|r| r.start <= a && (r.end == 0 || a < r.end));
            r.map(|r| SourceLocation(r)).into_iter().collect::<Vec<_>>().into_iter()
        }
    }
    #[derive(Clone, Copy, Debug)] pub struct SourceLocation<'a>(&'a Rec);
    #[derive(Clone, Copy, Debug)] pub struct File<'a>(&'a Rec);
    #[derive(Clone, Copy, Debug)] pub struct Function<'a>(&'a Rec);
    impl<'a> SourceLocation<'a> { pub fn line(&self) -> u32 { self.0.line } pub fn file(&self) -> Option<File<'a>> { (!self.0.file.is_empty()).then_some(File(self.0)) } pub fn function(&self) -> Function<'a> { Function(self.0) } }
    impl<'a> File<'a> { pub fn full_path(&self) -> String { self.0.file.clone() } }
    impl<'a> Function<'a> { pub fn name(&self) -> &'a str { &self.0.name } pub fn name_for_demangling(&self) -> Name<'a> { Name::new(&*self.0.name, NameMangling::Unknown, Language::Unknown) } pub fn entry_pc(&self) -> u32 { self.0.start as u32 } pub fn language(&self) -> Language { Language::Unknown } }
    pub struct SymCacheConverter(Arch, Vec<Rec>);
    impl SymCacheConverter {
        pub fn new() -> Self { SymCacheConverter(Arch::Unknown, vec![]) }
        pub fn add_transformer<T>(&mut self, _: T) {}
        pub fn process_object(&mut self, o: &symbolic_debuginfo::Object<'_>) -> Result<(), Error> {
            self.0 = o.arch();
            for s in o.symbols() { self.1.push(Rec { start: s.address, end: if s.size == 0 { 0 } else { s.address + s.size }, line: 0, file: String::new(), name: s.name().unwrap_or("").replace(['\t', '\n'], " ") }); }
            let d = o.debug_session().map_err(|_| Error)?;
            for f in d.functions() { let f = f.map_err(|_| Error)?; for l in &f.lines { self.1.push(Rec { start: l.address, end: l.address + l.size.unwrap_or(1), line: l.line as u32, file: l.file.path_str(), name: f.name.as_str().into() }); } }
            self.1.sort_by_key(|r| r.start); Ok(())
        }
        pub fn serialize<W: std::io::Write>(self, w: &mut W) -> std::io::Result<()> { writeln!(w, "SYMCACHE {}", self.0)?; for r in &self.1 { writeln!(w, "{}\t{}\t{}\t{}\t{}", r.start, r.end, r.line, r.file, r.name)?; } Ok(()) }
    }
}
/// The map is text itself, one line for each token: line, column, name, scope, file name, file contents, original line and column.  `+` leads
/// what is there, `-` stands for what is not; scopes are `N` and a name, `A` or `U`.
pub mod sourcemapcache {
    use symbolic_common::AsSelf;
    #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not a map") } } impl std::error::Error for Error {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct SourcePosition { pub line: u32, pub column: u32 }
    impl SourcePosition { pub fn new(line: u32, column: u32) -> Self { SourcePosition { line, column } } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum ScopeLookupResult<'a> { NamedScope(&'a str), AnonymousScope, Unknown }
    #[derive(Clone, Copy, Debug)] pub struct SourceLocation<'a> { f: [&'a str; 8] }
    #[derive(Clone, Copy, Debug)] pub struct File<'a> { name: Option<&'a str>, source: Option<&'a str> }
    #[derive(Clone, Debug)] pub struct SourceMapCache<'a>(&'a str);
    impl<'s, 'a> AsSelf<'s> for SourceMapCache<'a> { type Ref = SourceMapCache<'s>; fn as_self(&'s self) -> &'s SourceMapCache<'s> { unsafe { std::mem::transmute(self) } } }
    fn opt(s: &str) -> Option<&str> { s.strip_prefix('+') }
    fn fields(l: &str) -> Option<[&str; 8]> { let v: Vec<&str> = l.split('\t').collect(); let f: [&str; 8] = v.try_into().ok()?; for i in [0, 1, 6, 7] { f[i].parse::<u32>().ok()?; } Some(f) }
    impl<'a> SourceMapCache<'a> {
        pub fn parse(b: &'a [u8]) -> Result<Self, Error> { let t = std::str::from_utf8(b).map_err(|_| Error)?; t.strip_prefix("VPMAP\n").map(SourceMapCache).ok_or(Error) }
        pub fn lookup(&self, p: SourcePosition) -> Option<SourceLocation<'_>> {
            self.0.lines().filter_map(fields).find(|f| f[0].parse() == Ok(p.line) && f[1].parse() == Ok(p.column)).map(|f| SourceLocation { f })
        }
    }
    impl<'a> SourceLocation<'a> {
        pub fn name(&self) -> Option<&'a str> { opt(self.f[2]) }
        pub fn scope(&self) -> ScopeLookupResult<'a> { match self.f[3].strip_prefix('N') { Some(n) => ScopeLookupResult::NamedScope(n), None if self.f[3] == "A" => ScopeLookupResult::AnonymousScope, None => ScopeLookupResult::Unknown } }
        pub fn file_name(&self) -> Option<&'a str> { opt(self.f[4]) }
        pub fn file(&self) -> Option<File<'a>> { (self.f[4] != "-" || self.f[5] != "-").then(|| File { name: opt(self.f[4]), source: opt(self.f[5]) }) }
        pub fn line(&self) -> u32 { self.f[6].parse().unwrap() }
        pub fn column(&self) -> u32 { self.f[7].parse().unwrap() }
    }
    impl<'a> File<'a> { pub fn name(&self) -> Option<&'a str> { self.name } pub fn source(&self) -> Option<&'a str> { self.source } }
    pub struct SourceMapCacheWriter(String);
    impl SourceMapCacheWriter {
        pub fn new(_source: &str, map: &str) -> Result<Self, Error> { if !map.starts_with("VPMAP\n") || !map[6..].lines().all(|l| fields(l).is_some()) { return Err(Error); } Ok(SourceMapCacheWriter(map.into())) }
        pub fn serialize<W: std::io::Write>(self, w: &mut W) -> std::io::Result<()> { w.write_all(self.0.as_bytes()) }
    }
}
