//! Extension streams of minidumps: what is recorded is read, in bounds, and the rest is refused
use minidump::Minidump;
use symbolic::common::ByteView;
use symbolicator_native::interface::FrameTrust;
use symbolicator_native::symbolication::minidump_stacktraces::parse_stacktraces_from_minidump;
use vp_svc::*;
const ID: u32 = 0x5379_0001;
type Stack = (u64, Vec<(u64, String)>);
fn u32_at(b: &[u8], i: usize) -> u64 { u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64 }
/// a reader of the documented format that only uses checked indexing
fn expect(b: &[u8]) -> Option<Vec<Stack>> {
    if b.len() < 16 || u32_at(b, 0) != 1 { return None; }
    let (nt, nf, ns) = (u32_at(b, 4), u32_at(b, 8), u32_at(b, 12));
    let threads = 16u64; let frames = (threads + 12 * nt).div_ceil(8) * 8; let symbols = frames + 16 * nf;
    if b.len() as u64 != symbols + ns { return None; }
    let mut out = vec![];
    for t in 0..nt as usize {
        let p = 16 + 12 * t; let (id, start, n) = (u32_at(b, p), u32_at(b, p + 4), u32_at(b, p + 8));
        if start + n > nf { return None; }
        let mut v = vec![];
        for f in start..start + n {
            let p = frames as usize + 16 * f as usize; let (s, l) = (u32_at(b, p + 8), u32_at(b, p + 12));
            if s + l > ns { return None; }
            let name = &b[symbols as usize..][s as usize..][..l as usize];
            v.push((u32_at(b, p) | u32_at(b, p + 4) << 32, String::from_utf8_lossy(name).into_owned()));
        }
        out.push((id, v));
    }
    Some(out)
}
fn w(v: &mut Vec<u8>, n: u64) { v.extend((n as u32).to_le_bytes()); }
fn build(r: &mut rng::Rng) -> Vec<u8> {
    let (nt, nf, ns) = (r.below(5), r.below(6), r.below(40));
    let mut b = vec![]; for n in [1, nt, nf, ns] { w(&mut b, n as u64); }
    let edge = |r: &mut rng::Rng, n: usize| -> (u64, u64) { let s = r.below(n + 1); let l = r.below(n - s + 1);
        match r.below(60) { 0 => (s as u64, l as u64 + 1 + (n - s - l) as u64), 1 => (n as u64 + 1, 0), 2 => (u32::MAX as u64, 1), 3 => (s as u64, u32::MAX as u64), 4 => (u32::MAX as u64, u32::MAX as u64), 5 => (1 << 31, 1 << 31), _ => (s as u64, l as u64) } };
    for _ in 0..nt { w(&mut b, r.next() >> 32); let (s, l) = edge(r, nf); w(&mut b, s); w(&mut b, l); }
    if nt % 2 == 1 { w(&mut b, r.next() >> 32); }
    for _ in 0..nf { w(&mut b, r.next() >> 32); w(&mut b, r.next() >> 32); let (s, l) = edge(r, ns); w(&mut b, s); w(&mut b, l); }
    let text = "main_start\u{e9}\u{4e2d}\u{1f600}::foo<T>".as_bytes();
    for i in 0..ns { b.push(if r.below(20) == 0 { r.next() as u8 } else { text[i % text.len()] }); }
    match r.below(12) {
        0 => { let n = r.below(b.len() + 1); b.truncate(n); }
        1 => { for _ in 0..1 + r.below(17) { b.push(r.next() as u8); } }
        2 => { let f = 4 * r.below(4); let v = [0u64, 1, 2, 1 << 28, (1 << 28) + 1, 1 << 31, u32::MAX as u64, 0x1555_5556, r.next() >> 60][r.below(9)]; b[f..f + 4].copy_from_slice(&(v as u32).to_le_bytes()); }
        3 => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); }
        4 => { // one record more or less than there is room for
            let f = 4 + 4 * r.below(3); let v = (u32_at(&b, f) as u32).wrapping_add([1u32, u32::MAX, 2][r.below(3)]); b[f..f + 4].copy_from_slice(&v.to_le_bytes()); }
        5 => { b = (0..r.below(40)).map(|_| r.next() as u8).collect(); }
        _ => {}
    }
    b
}
/// two pages of memory before one that cannot be read
struct Guard(*mut u8, usize);
impl Guard {
    fn new() -> Guard { unsafe {
        let p = libc::sysconf(libc::_SC_PAGESIZE) as usize;
        let m = libc::mmap(std::ptr::null_mut(), 3 * p, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED && libc::mprotect(m.add(2 * p), p, libc::PROT_NONE) == 0);
        Guard(m as *mut u8, 2 * p)
    } }
    /// the bytes, ending `gap` bytes before the unreadable page
    fn put(&self, b: &[u8], gap: usize) -> &'static [u8] { unsafe { let at = self.0.add(self.1 - gap - b.len()); std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len()); std::slice::from_raw_parts(at, b.len()) } }
}
/// what the child is at, readable by the parent after a crash
struct Note(*mut u8);
impl Note {
    fn new() -> Note { unsafe { let m = libc::mmap(std::ptr::null_mut(), 65536, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0); assert!(m != libc::MAP_FAILED); Note(m as *mut u8) } }
    fn set(&self, s: &str) { let n = s.len().min(60000); unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(8), n); *(self.0 as *mut u64) = n as u64; } }
    fn get(&self) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(self.0.add(8), *(self.0 as *const u64) as usize)).into_owned() } }
}
fn run(note: &Note) {
    let mut rep = Rep::new("streams of up to four threads, five frames and forty bytes of symbols, at every alignment and ending before an unreadable page: well-formed ones, ranges that leave their table by one or by far, wrong counts, truncated and extended ones, bit flips and random bytes");
    let mut r = rng::Rng::new(seed() + 25);
    let g = Guard::new();
    for k in 0..if thorough() { 2_000_000 } else { 200_000 } {
        let b = build(&mut r);
        let gap = r.below(9); // also decides the alignment
        let data = g.put(&b, gap);
        let want = expect(&b);
        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
        note.set(&format!("stream {hex} at address {} modulo 8", data.as_ptr() as usize % 8));
        rep.case((&hex, gap));
        let got = guarded(|| parse_stacktraces_from_minidump(&*Box::leak(Box::new(Minidump::vp(ByteView::from_slice(data), Some(ID), false)))).map(|s| s.map(|s| s.into_iter().map(|t| {
            if t.frames.iter().any(|f| f.trust != FrameTrust::PreWalked) { return (t.thread_id.unwrap_or(1 << 40), vec![(0, "trust".into())]); }
            (t.thread_id.unwrap_or(1 << 40), t.frames.into_iter().map(|f| (f.instruction_addr.0, f.function.unwrap_or_default())).collect()) }).collect::<Vec<Stack>>())));
        match (&got, &want) {
            (Ok(Ok(Some(g))), Some(w)) if g == w => { if k % 50 == 3 { rep.sample(format!("{hex} -> {w:?}")); } }
            (Ok(Err(_)), None) => {}
            (Err(e), _) => rep.fail("panic", format!("stream {hex}: {e}")),
            _ => rep.fail("frames", format!("stream {hex}: {:?} instead of {want:?}", got.map(|r| r.map_err(|e| e.to_string())))),
        }
    }
    for (ty, broken, what) in [(None, false, "none"), (Some(7), false, "another stream only"), (Some(ID), true, "a broken stream")] {
        rep.case(what);
        let m: &'static _ = Box::leak(Box::new(Minidump::vp(ByteView::from_slice(b"x" as &'static [u8]), ty, broken)));
        match guarded(|| parse_stacktraces_from_minidump(m).map(|s| s.is_none()).map_err(|e| e.to_string())) { Ok(Ok(true)) if !broken => {} Ok(Err(_)) if broken => {} x => rep.fail("stream", format!("a minidump with {what}: {x:?}")) }
    }
    rep.done();
}
fn main() {
    let note = Note::new();
    match unsafe { libc::fork() } {
        0 => { run(&note); }
        pid => {
            let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0) };
            if libc::WIFSIGNALED(st) { println!("FAIL crash the process ended with signal {} reading the {}", libc::WTERMSIG(st), note.get()); println!("CASES 1 1"); }
            else { std::process::exit(libc::WEXITSTATUS(st)); }
        }
    }
}
