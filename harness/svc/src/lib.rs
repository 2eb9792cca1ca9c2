//! Shared by the replay harnesses: deterministic generator, reporter, and the executable form of the
//! spec functions of props/paths_spec.rs.
pub mod rng;
use rng::*;
use std::collections::HashSet;
use symbolic::common::{CodeId, DebugId};
use symbolicator_sources::*;

pub struct Rep { pub cases: usize, seen: HashSet<u64>, fails: usize, samples: usize }
impl Rep {
    pub fn new(rule: &str) -> Rep { println!("RULE {rule}"); std::panic::set_hook(Box::new(|_| {})); Rep { cases: 0, seen: HashSet::new(), fails: 0, samples: 0 } }
    pub fn case<T: std::hash::Hash>(&mut self, t: T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h);
        self.cases += 1; self.seen.insert(h.finish());
    }
    pub fn sample(&mut self, s: String) { if self.samples < 3 { self.samples += 1; println!("SAMPLE {}", s.replace('\n', "\\n")); } }
    pub fn fail(&mut self, key: &str, s: String) { self.fails += 1; if self.fails <= 30 { println!("FAIL {key} {}", s.replace('\n', "\\n").replace('\r', "\\r")); } }
    pub fn done(self) { println!("CASES {} {}", self.cases, self.seen.len()); }
}
pub fn thorough() -> bool { std::env::var("VERIF_TIER").as_deref() == Ok("thorough") }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
/// a panic of the code under test is reported as Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

pub const LAYOUTS: [DirectoryLayoutType; 7] = [DirectoryLayoutType::Native, DirectoryLayoutType::Symstore, DirectoryLayoutType::SymstoreIndex2, DirectoryLayoutType::Ssqp, DirectoryLayoutType::Debuginfod, DirectoryLayoutType::Unified, DirectoryLayoutType::SlashSymbols];
pub const CASINGS: [FilenameCasing; 3] = [FilenameCasing::Default, FilenameCasing::Uppercase, FilenameCasing::Lowercase];
pub const OTYPES: [ObjectType; 6] = [ObjectType::Elf, ObjectType::Macho, ObjectType::Pe, ObjectType::Wasm, ObjectType::PeDotnet, ObjectType::Unknown];
pub const FTYPES: [FileType; 15] = [FileType::Pe, FileType::Pdb, FileType::PortablePdb, FileType::MachDebug, FileType::MachCode, FileType::ElfDebug, FileType::ElfCode, FileType::WasmDebug, FileType::WasmCode, FileType::Breakpad, FileType::SourceBundle, FileType::UuidMap, FileType::BcSymbolMap, FileType::Il2cpp, FileType::Proguard];

use std::sync::Arc;
use symbolicator_service::config::Config;
use symbolicator_service::download::DownloadService;
pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
/// the runtime with tokio's clock paused: sleeps of the service take no time
pub fn rt_paused() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap() }
pub fn downloader(c: &Config, h: &tokio::runtime::Runtime) -> Arc<DownloadService> { DownloadService::new(c, h.handle().clone()) }
/// a directory for this run, below the working directory
pub struct Scratch(pub std::path::PathBuf);
impl Scratch { pub fn new(n: &str) -> Scratch { let d = std::env::current_dir().unwrap().join(format!("scratch-{n}-{}", std::process::id())); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); Scratch(d) } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
