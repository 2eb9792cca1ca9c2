//! The modules of a response: every submitted one once, in order, with its own status and names
use std::collections::BTreeSet;
use symbolicator_service::types::*;
use vp_nat::*;
use vp_svc::*;
fn main() {
    let mut rep = Rep::new("requests with up to 7 modules in any order of addresses, whose files are fine, missing, denied, garbage or broken on a server, with and without sizes, debug ids, renamed first modules and source context, and up to 3 threads of 6 absolute or relative frames, through SymbolicationActor::symbolicate");
    let mut r = rng::Rng::new(seed() + 1);
    let mut lab = Lab::new("c18");
    for _ in 0..if thorough() { 4000 } else { 500 } {
        let mut c = case(&mut r);
        let distinct = c.modules.iter().map(|m| m.addr).collect::<BTreeSet<_>>().len() == c.modules.len();
        // frames that leave their module belong to another one once they are absolute
        if c.context { for t in &mut c.threads { t.retain(|f| f.rel.is_none()); } }
        let text = c.text(); rep.case(&text);
        let bundles = c.context && c.modules.len() % 2 == 0; lab.bundles(bundles);
        let got = match lab.run(&c) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("symbolicating {text} fails: {e}")); continue; } };
        if got.modules.len() != c.modules.len() { rep.fail("modules", format!("{} modules come back for {text}", got.modules.len())); continue; }
        let sorted = c.sorted();
        let used: BTreeSet<usize> = c.threads.iter().flatten().flat_map(|f| c.owners(f)).flatten().collect();
        for (i, m) in c.modules.iter().enumerate() {
            let o = &got.modules[i]; let size = sorted.iter().find(|s| s.0 == i).unwrap().2;
            if o.raw.code_file != Some(format!("/lib/m{i}.so")) || o.raw.debug_file.as_deref() != Some(&*m.name) || o.raw.image_addr.0 != m.addr { rep.fail("order", format!("module {i} comes back as {:?} for {text}", o.raw)); continue; }
            if o.raw.image_size.unwrap_or(0) != size { rep.fail("size", format!("module {i} has the size {:x?} instead of {size:x}, for {text}", o.raw.image_size)); }
            if !distinct { continue; }
            let want = match m.kind { _ if !used.contains(&i) => vec![ObjectFileStatus::Unused], Kind::Good => vec![ObjectFileStatus::Found], Kind::Missing | Kind::NoId => vec![ObjectFileStatus::Missing], Kind::Garbage => vec![ObjectFileStatus::Malformed], Kind::Denied | Kind::Broken => vec![ObjectFileStatus::FetchingFailed] };
            if !want.contains(&o.debug_status) { rep.fail("status", format!("module {i} ({:?}) is {:?} instead of {want:?}, for {text}", m.kind, o.debug_status)); }
            // files are looked for under the identity of the module itself, and only if it is used
            let mine = format!("1a2b3c4d-0000-4000-8000-0000000000{i:02x}").replace('-', "");
            let list: Vec<String> = o.candidates.iter().map(|c| c.location.to_string()).collect();
            let dl = m.kind == Kind::Good && used.contains(&i);
            if list.iter().any(|l| l.starts_with("https://") && !l.to_lowercase().replace('/', "").contains(&mine)) { rep.fail("candidates", format!("module {i} has the candidates {list:?}, for {text}")); }
            if used.contains(&i) != !list.is_empty() { rep.fail("candidates", format!("module {i} has the candidates {list:?}, used: {}, for {text}", used.contains(&i))); }
            let (sym, bundle) = (list.iter().filter(|l| l.ends_with(".sym") || l.ends_with("breakpad")).count(), list.iter().filter(|l| l.ends_with("sourcebundle")).count());
            if m.kind != Kind::NoId && used.contains(&i) && (sym, bundle) != (1, bundles as usize) { rep.fail("candidates", format!("module {i} has the candidates {list:?}, for {text}")); }
            let arch = if dl { if m.arm { "arm64" } else { "x86_64" } } else { "unknown" };
            if o.arch.name() != arch || o.features.has_symbols != dl { rep.fail("features", format!("module {i} has arch {} and {:?}, for {text}", o.arch, o.features)); }
            rep.sample(format!("{m:x?} -> {:?} {list:?}", o.debug_status));
        }
    }
    rep.done();
}
