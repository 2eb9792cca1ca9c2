//! Where frames are looked up: requests through the symbolicator against files with one symbol for each byte
use symbolicator_native::interface::*;
use vp_nat::*;
use vp_svc::*;
#[derive(PartialEq, Debug)]
enum Want { Status(FrameStatus), Symbol(String, u64, u64, AddrMode) }
fn want(c: &Case, t: usize, i: usize, owner: Option<usize>) -> Want {
    let Some(m) = owner else { return Want::Status(FrameStatus::UnknownImage) };
    match c.modules[m].kind { Kind::Good => {}, Kind::Garbage => return Want::Status(FrameStatus::Malformed), _ => return Want::Status(FrameStatus::Missing) }
    let Some(off) = c.looked_up(t, i, m) else { return Want::Status(FrameStatus::MissingSymbol) };
    if off > u32::MAX as u64 { return Want::Status(FrameStatus::MissingSymbol); }
    let s = off.min(SYMS - 1);
    // images at zero have no absolute addresses
    let (base, mode) = match c.modules[m].addr { 0 => (0, AddrMode::Rel(m)), a => (a, AddrMode::Abs) };
    Want::Symbol(format!("s{m}_{s}"), base.checked_add(off).unwrap_or(0), base.checked_add(s).unwrap_or(0), mode)
}
fn main() {
    let mut rep = Rep::new("requests with up to 7 modules (at, below and above each other, at zero, at the end of the address space, of any size or none, sharing their address) and up to 3 threads of 6 absolute or relative frames around their boundaries, with and without signals, registers, adjustments, scanned frames and frames named `_start`, through SymbolicationActor::symbolicate, against files with one symbol for each byte; every single conversion of addresses at the edges");
    let mut r = rng::Rng::new(seed());
    let mut lab = Lab::new("c17");
    for _ in 0..if thorough() { 4000 } else { 500 } {
        let mut c = case(&mut r); c.context = false; c.rewrite = false;
        for f in c.threads.iter_mut().flatten() { f.trust = *r.pick(&[None, None, None, Some("scan"), Some("cfi"), Some("context")]); f.function = *r.pick(&[None, None, Some("_start"), Some("start")]); }
        let text = c.text(); rep.case(&text);
        let got = match lab.run(&c) { Ok(g) => g, Err(e) => { rep.fail("panic", format!("symbolicating {text} fails: {e}")); continue; } };
        for t in 0..c.threads.len() {
            let Some(out) = got.stacktraces.get(t) else { rep.fail("threads", format!("{text}: thread {t} is gone")); continue; };
            let n = c.threads[t].len();
            let mut p = 0;
            for i in 0..n {
                let frame = &c.threads[t][i];
                let options: Vec<Want> = c.owners(frame).into_iter().map(|o| want(&c, t, i, o)).collect();
                // a scanned frame known to be wrong is left out, and so is the garbage below `_start`
                let after_start = p > 0 && out.frames.get(p - 1).is_some_and(|f| f.raw.function.as_deref() == Some("_start"));
                let noise = |w: &Want| matches!(w, Want::Status(FrameStatus::UnknownImage)) && (frame.trust == Some("scan") || i + 1 == n && after_start) || matches!(w, Want::Status(FrameStatus::MissingSymbol)) && frame.trust == Some("scan");
                let f = match out.frames.get(p) {
                    Some(f) if f.original_index == Some(i) => f,
                    _ => { if !options.iter().any(noise) { rep.fail("frames", format!("{text}: frame {i} of thread {t} is gone")); } continue; }
                };
                p += 1;
                let have = match f.status { FrameStatus::Symbolicated => Want::Symbol(f.raw.symbol.clone().unwrap_or_default(), f.raw.instruction_addr.0, f.raw.sym_addr.map_or(u64::MAX, |a| a.0), f.raw.addr_mode), s => Want::Status(s) };
                if !options.iter().any(|w| *w == have && !noise(w)) { rep.fail("frame", format!("frame {i} of thread {t} ({:x?}) is {have:x?} instead of {options:x?}, for {text}", c.threads[t][i])); }
                rep.sample(format!("{:x?} -> {have:x?}", c.threads[t][i]));
            }
            if p != out.frames.len() { rep.fail("frames", format!("{text}: thread {t} has {} frames, of which {p} belong to it in this order", out.frames.len())); }
        }
    }
    // conversions at the edges
    let edges = [0u64, 1, 2, 0x1000, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    for base in edges { for a in edges {
        let m = CompleteObjectInfo::from(serde_json::from_value::<symbolicator_service::types::RawObjectInfo>(serde_json::json!({"type": "elf", "image_addr": format!("0x{base:x}")})).unwrap());
        rep.case((base, a));
        let (down, up) = match guarded(|| (m.abs_to_rel_addr(a), m.rel_to_abs_addr(a))) { Ok(x) => x, Err(e) => { rep.fail("panic", format!("converting {a:x} in a module at {base:x} panics: {e}")); continue; } };
        let (d, u) = (a as i128 - base as i128, a as u128 + base as u128);
        if down.map(|x| x as i128) != (base != 0 && d >= 0).then_some(d) || up.map(|x| x as u128) != (base != 0 && u < 1 << 64).then_some(u) { rep.fail("conversion", format!("a module at {base:x} converts {a:x} to {down:x?} and {up:x?}")); }
    } }
    rep.done();
}
