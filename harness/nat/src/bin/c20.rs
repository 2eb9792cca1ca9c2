//! Wire values: what is written is read back, and only the documented spellings are read
use serde_json::{json, Value};
use symbolicator_native::interface::AddrMode;
use symbolicator_service::utils::hex::HexValue;
use symbolicator_sources::{FileType, ObjectType};
use vp_svc::*;
/// the value of a text of digits, optionally after a plus sign
fn number(s: &str, base: u128) -> Option<u64> {
    let s = if s.len() > 1 { s.strip_prefix('+').unwrap_or(s) } else { s };
    if s.is_empty() { return None; }
    let mut n: u128 = 0;
    for c in s.chars() {
        let d = match c { '0'..='9' => c as u128 - 48, 'a'..='f' => c as u128 - 87, 'A'..='F' => c as u128 - 55, _ => return None };
        if d >= base { return None; }
        n = n * base + d;
        if n > u64::MAX as u128 { return None; }
    }
    Some(n as u64)
}
fn hex(s: &str) -> Option<u64> { match s.get(..2) { Some("0x" | "0X") => number(&s[2..], 16), _ => number(s, 10) } }
fn mode(s: &str) -> Option<AddrMode> { if s == "abs" { return Some(AddrMode::Abs); } number(s.strip_prefix("rel:")?, 10).map(|n| AddrMode::Rel(n as usize)) }
const TYPES: [(&str, ObjectType); 6] = [("elf", ObjectType::Elf), ("macho", ObjectType::Macho), ("pe", ObjectType::Pe), ("wasm", ObjectType::Wasm), ("pe_dotnet", ObjectType::PeDotnet), ("unknown", ObjectType::Unknown)];
const FILES: [(&str, FileType); 15] = [("pe", FileType::Pe), ("pdb", FileType::Pdb), ("portablepdb", FileType::PortablePdb), ("mach_debug", FileType::MachDebug), ("mach_code", FileType::MachCode), ("elf_debug", FileType::ElfDebug), ("elf_code", FileType::ElfCode), ("wasm_debug", FileType::WasmDebug), ("wasm_code", FileType::WasmCode), ("breakpad", FileType::Breakpad), ("sourcebundle", FileType::SourceBundle), ("uuidmap", FileType::UuidMap), ("bcsymbolmap", FileType::BcSymbolMap), ("il2cpp", FileType::Il2cpp), ("proguard", FileType::Proguard)];
fn main() {
    let mut rep = Rep::new("values at every power of two and its neighbours and random ones, written and read back; texts built from prefixes, signs, digits in several scripts and separators, and one-character edits of valid texts, against a reference reader; every object and file type with mutated spellings");
    let mut r = rng::Rng::new(seed() + 20);
    let mut nums: Vec<u64> = (0..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1, !(1u64 << b), (1u64 << b) + 1]).collect();
    for _ in 0..if thorough() { 400000 } else { 20000 } { let s = r.below(64); nums.push(r.next() >> s); }
    for n in &nums {
        rep.case(n);
        let h = HexValue(*n);
        match guarded(|| (h.to_string(), serde_json::to_value(h).unwrap())) {
            Err(e) => rep.fail("panic", format!("writing {n:#x}: {e}")),
            Ok((t, v)) => {
                if t != format!("0x{n:x}") || v != json!(t) { rep.fail("hex-written", format!("{n:#x} is written {t:?} / {v}")); }
                for (how, b) in [("text", t.parse::<HexValue>().ok()), ("JSON", serde_json::from_value(v).ok()), ("JSON number", serde_json::from_value(json!(n)).ok()), ("decimal text", n.to_string().parse().ok()), ("upper case", format!("0X{n:X}").parse().ok())] {
                    if b != Some(h) { rep.fail("hex-read", format!("{n:#x} read back from {how} is {b:?}")); }
                }
            }
        }
        let i = *n as i64;
        if i < 0 { match guarded(|| serde_json::from_value::<HexValue>(json!(i)).ok()) { Ok(Some(b)) if b == h => {} x => rep.fail("negative", format!("JSON number {i} is read {x:?}")) } }
        for m in [AddrMode::Rel(*n as usize), AddrMode::Abs] {
            let x = guarded(|| (m.to_string(), serde_json::to_value(m).unwrap()));
            let Ok((t, v)) = x else { rep.fail("panic", format!("writing {m:?}")); continue };
            if t != match m { AddrMode::Abs => "abs".to_string(), AddrMode::Rel(i) => format!("rel:{i}") } || v != json!(t) { rep.fail("mode-written", format!("{m:?} is written {t:?} / {v}")); }
            for b in [t.parse::<AddrMode>().ok(), serde_json::from_value(v).ok()] { if b != Some(m) { rep.fail("mode-read", format!("{m:?} written {t:?} is read back {b:?}")); } }
        }
    }
    // texts
    let pieces = ["0x", "0X", "x", "0", "1", "9", "a", "F", "f", "g", "+", "-", ":", "rel", "rel:", "REL:", "abs", "Abs", " ", "_", "\t", "\u{e9}", "\u{661}", "\u{ff11}", "00", "ffffffffffffffff", "10000000000000000", "18446744073709551615", "18446744073709551616", "9223372036854775808", "0b", "0o", "pe", "elf", "\0"];
    let mut texts: Vec<String> = pieces.iter().map(|s| s.to_string()).collect();
    texts.push(String::new());
    for a in pieces { for b in pieces { texts.push(format!("{a}{b}")); for c in pieces { texts.push(format!("{a}{b}{c}")); } } }
    for _ in 0..if thorough() { 400000 } else { 20000 } {
        let mut s: String = match r.below(4) { 0 => format!("0x{:x}", r.next()), 1 => format!("rel:{}", r.next() >> 40), 2 => TYPES[r.below(6)].0.into(), _ => FILES[r.below(15)].0.into() };
        let mut v: Vec<char> = s.chars().collect();
        let p = r.below(v.len() + 1);
        let c = pieces[r.below(pieces.len())].chars().next().unwrap();
        match r.below(4) { 0 => v.insert(p, c), 1 if p < v.len() => { v.remove(p); } 2 if p < v.len() => v[p] = c, _ if p < v.len() => v[p] = if v[p].is_uppercase() { v[p].to_ascii_lowercase() } else { v[p].to_ascii_uppercase() }, _ => {} }
        s = v.into_iter().collect(); texts.push(s);
    }
    for s in &texts {
        rep.case(s);
        let js = Value::String(s.clone());
        let want = hex(s).map(HexValue);
        match guarded(|| [s.parse::<HexValue>().ok(), serde_json::from_value(js.clone()).ok()]) { Ok(g) if g == [want, want] => {} x => rep.fail("hex-text", format!("{s:?} is read {x:?} instead of {want:?}")) }
        let want = mode(s);
        match guarded(|| [s.parse::<AddrMode>().ok(), serde_json::from_value(js.clone()).ok()]) { Ok(g) if g == [want, want] => { if want.is_some() { rep.sample(format!("{s:?} -> {want:?}")); } } x => rep.fail("mode-text", format!("{s:?} is read {x:?} instead of {want:?}")) }
        let want = TYPES.iter().find(|t| t.0 == s).map_or(ObjectType::Unknown, |t| t.1);
        match guarded(|| [s.parse::<ObjectType>().ok(), serde_json::from_value(js.clone()).ok()]) { Ok(g) if g == [Some(want), Some(want)] => {} x => rep.fail("type-text", format!("{s:?} is read {x:?} instead of {want:?}")) }
        let want = FILES.iter().find(|t| t.0 == s).map(|t| t.1);
        match guarded(|| serde_json::from_value::<FileType>(js.clone()).ok()) { Ok(g) if g == want => {} x => rep.fail("file-text", format!("{s:?} is read {x:?} instead of {want:?}")) }
    }
    // every type
    for (t, o) in TYPES { if o.to_string() != t || serde_json::to_value(o).ok() != Some(json!(t)) { rep.fail("type-written", format!("{o:?} is written {o} / {:?}", serde_json::to_value(o))); } }
    for (t, f) in FILES { if f.as_ref() != t || serde_json::to_value(f).ok() != Some(json!(t)) { rep.fail("file-written", format!("{f:?} is written {} / {:?}", f.as_ref(), serde_json::to_value(f))); } }
    for v in [json!(null), json!(1.5), json!(true), json!([]), json!({}), json!("abs")] { match guarded(|| (serde_json::from_value::<HexValue>(v.clone()).is_ok(), serde_json::from_value::<FileType>(v.clone()).is_ok())) { Ok((false, false)) => {} x => rep.fail("other", format!("{v} is read {x:?}")) } }
    rep.done();
}
