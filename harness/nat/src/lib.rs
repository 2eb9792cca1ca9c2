//! Requests to the symbolicator with a server whose files name the module and the address that was looked up
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use reqwest::vp::Reply;
use serde_json::{json, Value};
use symbolicator_native::interface::*;
use symbolicator_native::symbolication::symbolicate::SymbolicationActor;
use symbolicator_service::{config::Config, services::SharedServices, types::*};
use vp_svc::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Good, Missing, Denied, Garbage, Broken, NoId }
#[derive(Clone, Debug)]
pub struct Module { pub addr: u64, pub size: Option<u64>, pub kind: Kind, pub arm: bool, pub name: String }
#[derive(Clone, Debug)]
pub struct Frame { pub addr: u64, pub rel: Option<usize>, pub adjust: Option<bool>, pub trust: Option<&'static str>, pub function: Option<&'static str> }
#[derive(Clone, Debug)]
pub struct Case { pub modules: Vec<Module>, pub threads: Vec<Vec<Frame>>, pub signal: Option<u32>, pub ip: Option<u64>, pub context: bool, pub rewrite: bool }
/// how far a module's symbols reach: one for each byte
pub const SYMS: u64 = 48;
fn id(i: usize) -> String { format!("1a2b3c4d-0000-4000-8000-0000000000{i:02x}") }
impl Case {
    /// the modules by load address, equal ones in the submitted order, with the sizes they are taken to have
    pub fn sorted(&self) -> Vec<(usize, u64, u64)> {
        let mut v: Vec<(usize, u64, u64)> = self.modules.iter().enumerate().map(|(i, m)| (i, m.addr, m.size.unwrap_or(0))).collect();
        for a in 0..v.len() { for b in a + 1..v.len() { if (v[b].1, v[b].0) < (v[a].1, v[a].0) { v.swap(a, b); } } }
        for i in 0..v.len() { if v[i].2 == 0 && i + 1 < v.len() { v[i].2 = v[i + 1].1 - v[i].1; } }
        v
    }
    /// the modules an address may belong to (several only if they share their load address); None: none of them
    pub fn owners(&self, f: &Frame) -> Vec<Option<usize>> {
        if let Some(i) = f.rel { return vec![(i < self.modules.len()).then_some(i)]; }
        let v = self.sorted();
        let Some(top) = v.iter().filter(|m| m.1 <= f.addr).map(|m| m.1).max() else { return vec![None] };
        v.iter().filter(|m| m.1 == top).map(|m| { let end = m.1 as u128 + m.2 as u128; (end < 1 << 64 && (m.2 == 0 || f.addr as u128 <= end)).then_some(m.0) }).collect()
    }
    /// the offset into the module that is looked up; None if there is none
    pub fn looked_up(&self, t: usize, index: usize, m: usize) -> Option<u64> {
        let (f, md) = (&self.threads[t][index], &self.modules[m]);
        let any = self.threads[t].iter().any(|f| f.adjust.is_some());
        // images at zero have no absolute addresses, and nothing is adjusted in them
        if md.addr == 0 { return f.rel.map(|_| f.addr); }
        let rel = if f.rel.is_some() { f.addr } else { f.addr - md.addr };
        let Some(abs) = md.addr.checked_add(rel) else { return Some(rel) };
        let step = if md.arm { 4 } else { 1 };
        let own = abs - abs % step;
        let before = own.wrapping_sub(step);
        // the frame that crashed shows its own address, unless a signal handler was cut off above it
        let auto = if index > 0 || self.ip.is_some_and(|ip| ip != abs) && matches!(self.signal, Some(4 | 10 | 11)) { before } else { own };
        let at = match f.adjust { Some(true) => before, Some(false) => own, None if any => before, None => auto };
        at.checked_sub(md.addr)
    }
    pub fn text(&self) -> String { format!("modules {:x?}, threads {:x?}, signal {:?}, ip {:x?}, context {}, rewrite {}", self.modules, self.threads, self.signal, self.ip, self.context, self.rewrite) }
}
pub struct Lab { rt: tokio::runtime::Runtime, sc: Scratch, n: usize, bundles: bool, kinds: Arc<Mutex<Vec<(Kind, bool)>>> }
impl Lab {
    pub fn new(name: &str) -> Lab {
        let kinds: Arc<Mutex<Vec<(Kind, bool)>>> = Default::default(); let k2 = kinds.clone();
        reqwest::vp::install(Arc::new(move |q, _| {
            let u = q.url().to_string().to_lowercase().replace(['/', '-'], "");
            let Some(p) = u.find("1a2b3c4d") else { return Reply::status(404, b"") };
            let i = usize::from_str_radix(&u[p + 30..p + 32], 16).unwrap();
            let (k, arm) = k2.lock().unwrap()[i];
            match k { Kind::Missing | Kind::NoId => Reply::status(404, b""), Kind::Denied => Reply::status(403, b""), Kind::Garbage => Reply::ok(b"no object file at all"), Kind::Broken => Reply::status(500, b""),
                Kind::Good => { let mut t = format!("MODULE Linux {} {}0 m{i}.so\n", if arm { "arm64" } else { "x86_64" }, id(i).replace('-', "").to_uppercase()); for o in 0..SYMS { t += &format!("PUBLIC {o:x} 0 s{i}_{o}\n"); } Reply::ok(t.as_bytes()) } }
        }));
        Lab { rt: rt_paused(), sc: Scratch::new(name), n: 0, bundles: false, kinds }
    }
    /// look for source bundles, too
    pub fn bundles(&mut self, b: bool) { self.bundles = b; }
    pub fn run(&mut self, c: &Case) -> Result<CompletedSymbolicationResponse, String> {
        *self.kinds.lock().unwrap() = c.modules.iter().map(|m| (m.kind, m.arm)).collect();
        self.n += 1;
        let dir = self.sc.0.join(self.n.to_string()); std::fs::create_dir_all(&dir).unwrap();
        let sources = vec![serde_json::from_value(json!({"id": "h", "type": "http", "url": "https://h.example/", "filters": {"filetypes": if self.bundles { json!(["breakpad", "sourcebundle"]) } else { json!(["breakpad"]) }}, "layout": {"type": if self.bundles { "unified" } else { "native" }}})).unwrap()];
        let request = SymbolicateStacktraces {
            platform: None, scope: Scope::Global, signal: c.signal.map(Signal), sources: sources.into(), origin: StacktraceOrigin::Symbolicate,
            stacktraces: c.threads.iter().map(|t| RawStacktrace {
                registers: c.ip.iter().flat_map(|ip| [("rip", *ip), ("pc", *ip)]).map(|(n, v)| (n.to_string(), symbolicator_service::utils::hex::HexValue(v))).collect(),
                frames: t.iter().map(|f| { let mut v = json!({"instruction_addr": format!("0x{:x}", f.addr)}); if let Some(m) = f.rel { v["addr_mode"] = Value::from(format!("rel:{m}")); } if let Some(a) = f.adjust { v["adjust_instruction_addr"] = Value::from(a); } if let Some(a) = f.trust { v["trust"] = Value::from(a); } if let Some(a) = f.function { v["function"] = Value::from(a); } serde_json::from_value(v).unwrap() }).collect(),
                ..Default::default() }).collect(),
            modules: c.modules.iter().enumerate().map(|(i, m)| { let raw: RawObjectInfo = serde_json::from_value(json!({"type": "elf", "image_addr": format!("0x{:x}", m.addr), "image_size": m.size, "debug_file": m.name, "code_file": format!("/lib/m{i}.so"),
                "debug_id": if m.kind == Kind::NoId { Value::Null } else { Value::from(id(i)) }, "code_id": if m.kind == Kind::NoId { Value::Null } else { Value::from(id(i).replace('-', "")) } })).unwrap(); CompleteObjectInfo::from(raw) }).collect(),
            apply_source_context: c.context, scraping: Default::default(),
            rewrite_first_module: serde_json::from_value(if c.rewrite { json!([{"from": "^m[0-9]*[02468]\\.so$", "to": "electron"}]) } else { json!([]) }).unwrap(),
        };
        let r = guarded(|| { let svc = { let _g = self.rt.enter(); SharedServices::new(Config { deny_list_enabled: false, cache_dir: Some(dir.clone()), connect_to_reserved_ips: true, ..Config::default() }, self.rt.handle().clone()).unwrap() };
            self.rt.block_on(SymbolicationActor::new(&svc).symbolicate(request)) });
        std::fs::remove_dir_all(&dir).ok();
        match r { Ok(Ok(a)) => Ok(a), Ok(Err(e)) => Err(format!("{e:?}")), Err(e) => Err(e) }
    }
}
pub fn case(r: &mut rng::Rng) -> Case {
    let n = r.below(8);
    let pool = [0u64, 0x10, 0x1000, 0x1020, 0x4000, 0x4001, 0x10_0000, 0x7fff_0000_0000, 0x8000_0000_0000_0000, u64::MAX - 0x40, u64::MAX - 1, u64::MAX];
    let twins = r.below(5) == 0;
    let mut modules: Vec<Module> = vec![];
    for i in 0..n {
        let mut addr = if r.below(3) > 0 { *r.pick(&pool) } else { 0x1000 * r.below(20) as u64 };
        if !twins { while modules.iter().any(|m| m.addr == addr) { addr = addr.wrapping_add(0x800); } }
        let size = match r.below(8) { 0 | 1 => None, 2 => Some(0), 3 => Some(1), 4 => Some(0x20), 5 => Some(0x1000), 6 => Some(r.below(64) as u64), _ => Some(*r.pick(&[u64::MAX, u64::MAX - addr, 1 << 40])) };
        modules.push(Module { addr, size, kind: if r.below(5) < 3 { Kind::Good } else { *r.pick(&[Kind::Missing, Kind::Denied, Kind::Garbage, Kind::Broken, Kind::NoId]) }, arm: r.below(4) == 0, name: format!("m{i}.so") });
    }
    let mut threads = vec![];
    for _ in 0..r.below(4) {
        let mut t = vec![];
        for _ in 0..r.below(7) {
            let near: Vec<u64> = modules.iter().flat_map(|m| [m.addr, m.addr.wrapping_add(m.size.unwrap_or(0)), m.addr.wrapping_add(0x20)]).collect();
            let at = if near.is_empty() || r.below(6) == 0 { r.next() >> r.below(64) } else { r.pick(&near).wrapping_add(r.below(12) as u64).wrapping_sub(r.below(8) as u64) };
            let rel = if r.below(3) == 0 { Some(r.below(n + 2)) } else { None };
            let addr = match rel { Some(_) => match r.below(8) { 0 => r.next() >> r.below(64), 1 => u64::MAX - r.below(3) as u64, _ => r.below(50) as u64 }, None => at };
            t.push(Frame { addr, rel, adjust: match r.below(14) { 0 => Some(true), 1 => Some(false), _ => None }, trust: None, function: None });
        }
        threads.push(t);
    }
    let first = threads.iter().flatten().next().map(|f| f.addr).unwrap_or(0);
    Case { modules, threads, signal: *r.pick(&[None, None, Some(11), Some(4), Some(6)]), ip: match r.below(4) { 0 | 1 => None, 2 => Some(first), _ => Some(first.wrapping_add(9)) }, context: r.below(3) == 0, rewrite: r.below(2) == 0 }
}
pub fn statuses(r: &CompletedSymbolicationResponse) -> BTreeMap<usize, ObjectFileStatus> { r.modules.iter().enumerate().map(|(i, m)| (i, m.debug_status)).collect() }
