use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs
//@include ../modules.rs

// ---- frames ---------------------------------------------------------------------------------------------
//@include ../frames.rs
impl AdjustInstructionAddr {
//@fn crates/symbolicator-native/src/interface.rs AdjustInstructionAddr::for_frame
//@ret r
//@spec
    ensures r == adjustment(*frame, default)
//@end
//@fn crates/symbolicator-native/src/interface.rs AdjustInstructionAddr::default_for_thread
//@sub? thread . frames . iter ( ) . any ( | frame | frame . adjust_instruction_addr . is_some ( ) ) ==> vp_any ( & thread . frames , | frame : & RawFrame | -> ( b : bool ) ensures b == frame . adjust_instruction_addr is Some { frame . adjust_instruction_addr . is_some ( ) } )
//@ret r
//@spec
    ensures r == thread_default(*thread)
//@end
}
/// a frame's own setting decides; a thread with any such setting adjusts the others, one without leaves it to the heuristic
pub open spec fn adjustment(f: RawFrame, d: AdjustInstructionAddr) -> AdjustInstructionAddr { match f.adjust_instruction_addr { Some(true) => AdjustInstructionAddr::Yes, Some(false) => AdjustInstructionAddr::No, None => d } }
pub open spec fn thread_default(t: RawStacktrace) -> AdjustInstructionAddr { if exists|i: int| 0 <= i < t.frames@.len() && (#[trigger] t.frames@[i]).adjust_instruction_addr is Some { AdjustInstructionAddr::Yes } else { AdjustInstructionAddr::Auto } }
#[verifier::external_body]
pub fn vp_any<'a, T, F: Fn(&'a T) -> bool>(v: &'a Vec<T>, f: F) -> (r: bool)
    requires forall|x: &'a T| f.requires((x,)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{ unimplemented!() }

// ---- symbolic: instruction addresses and symcaches (assumed) ----------------------------------------------
#[verifier::external_body] #[derive(Clone, Copy)] pub struct CpuFamily { s: u8 }
impl Arch { pub uninterp spec fn ip_name(&self) -> Option<Str>; #[verifier::external_body] pub fn cpu_family(&self) -> (r: CpuFamily) ensures r.ip() == self.ip_name() { unimplemented!() } }
impl CpuFamily { pub uninterp spec fn ip(&self) -> Option<Str>; #[verifier::external_body] pub fn ip_register_name(&self) -> (r: Option<&'static str>) ensures match r { Some(s) => self.ip() == Some(s@), None => self.ip() is None } { unimplemented!() } }
/// the address rounded down to an instruction, and the instruction before that one (in the arithmetic of the machine)
pub uninterp spec fn aligned(a: Arch, addr: u64) -> u64;
pub uninterp spec fn previous(a: Arch, addr: u64) -> u64;
pub uninterp spec fn crash_signal(s: u32) -> bool;
pub struct Instr { pub arch: Arch, pub addr: u64, pub crashing: bool, pub signal: Option<u32>, pub ip: Option<u64> }
/// the crashing frame has its own address, unless the instruction pointer of a crash by signal says otherwise; every other frame returns to the instruction after its call
pub open spec fn caller(i: Instr) -> u64 {
    if !i.crashing || (i.ip is Some && i.ip->Some_0 != i.addr && i.signal is Some && crash_signal(i.signal->Some_0)) { previous(i.arch, i.addr) } else { aligned(i.arch, i.addr) }
}
#[verifier::external_body] pub struct InstructionInfo { s: u8 }
impl InstructionInfo {
    pub uninterp spec fn v(&self) -> Instr;
    #[verifier::external_body] pub fn new(arch: Arch, addr: u64) -> (r: Self) ensures r.v() == (Instr { arch, addr, crashing: false, signal: None, ip: None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_crashing_frame(&mut self, flag: bool) -> (r: &mut Self) ensures r.v() == (Instr { crashing: flag, ..old(self).v() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn signal(&mut self, signal: Option<u32>) -> (r: &mut Self) ensures r.v() == (Instr { signal, ..old(self).v() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn ip_register_value(&mut self, ip: Option<u64>) -> (r: &mut Self) ensures r.v() == (Instr { ip, ..old(self).v() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn previous_address(&self) -> (r: u64) ensures r == previous(self.v().arch, self.v().addr) { unimplemented!() }
    #[verifier::external_body] pub fn aligned_address(&self) -> (r: u64) ensures r == aligned(self.v().arch, self.v().addr) { unimplemented!() }
    #[verifier::external_body] pub fn caller_address(&self) -> (r: u64) ensures r == caller(self.v()) { unimplemented!() }
}
#[verifier::external_body] pub struct SymCache { s: u8 }
#[verifier::external_body] pub struct SourceLocation { s: u8 }
#[verifier::external_body] pub struct SymFile { s: u8 }
#[verifier::external_body] pub struct Function { s: u8 }
impl SymCache {
    pub uninterp spec fn of(&self) -> Arch;
    pub uninterp spec fn lines(&self, addr: u64) -> Seq<SourceLocation>;
    #[verifier::external_body] pub fn arch(&self) -> (r: Arch) ensures r == self.of() { unimplemented!() }
    #[verifier::external_body] pub fn lookup(&self, addr: u64) -> (r: Vec<SourceLocation>) ensures r@ == self.lines(addr) { unimplemented!() }
}
impl SourceLocation {
    pub uninterp spec fn line_(&self) -> u32; pub uninterp spec fn file_(&self) -> Option<SymFile>; pub uninterp spec fn function_(&self) -> Function;
    #[verifier::external_body] pub fn line(&self) -> (r: u32) ensures r == self.line_() { unimplemented!() }
    #[verifier::external_body] pub fn file(&self) -> (r: Option<SymFile>) ensures r == self.file_() { unimplemented!() }
    #[verifier::external_body] pub fn function(&self) -> (r: Function) ensures r == self.function_() { unimplemented!() }
}
impl SymFile { pub uninterp spec fn path(&self) -> Str; #[verifier::external_body] pub fn full_path(&self) -> (r: String) ensures r@ == self.path() { unimplemented!() } }
impl Function {
    pub uninterp spec fn entry(&self) -> u32; pub uninterp spec fn lang(&self) -> Language;
    #[verifier::external_body] pub fn entry_pc(&self) -> (r: u32) ensures r == self.entry() { unimplemented!() }
    #[verifier::external_body] pub fn language(&self) -> (r: Language) ensures r == self.lang() { unimplemented!() }
}
#[verifier::external_body] pub struct DemangleCache { s: u8 }
#[verifier::external_body] pub fn demangle_symbol(c: &DemangleCache, f: &Function) -> (r: (String, String)) { unimplemented!() }
#[verifier::external_body] pub fn split_path(s: &str) -> (r: (Option<&str>, &str)) { unimplemented!() }
impl OwnedSymCache { pub uninterp spec fn cache(&self) -> SymCache; #[verifier::external_body] pub fn get(&self) -> (r: &SymCache) ensures *r == self.cache() { unimplemented!() } }
#[verifier::external_body] pub struct PortablePdbCache { s: u8 }
impl OwnedPortablePdbCache { #[verifier::external_body] pub fn get(&self) -> (r: &PortablePdbCache) { unimplemented!() } }
#[verifier::external_body] pub fn symbolicate_dotnet_frame(c: &PortablePdbCache, f: &RawFrame, index: usize) -> (r: Result<Vec<SymbolicatedFrame>, FrameStatus>) { unimplemented!() }
pub trait VpCloneFrom: Sized { fn vp_clone_from(&mut self, o: &Self) ensures *final(self) == *o; }
impl VpCloneFrom for Option<String> { #[verifier::external_body] fn vp_clone_from(&mut self, o: &Self) { unimplemented!() } }
pub trait VpCl: Sized { fn vp_cl(&self) -> (r: Self) ensures r == *self; }
impl VpCl for Option<String> { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
impl VpCl for Option<Platform> { #[verifier::external_body] fn vp_cl(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vp_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>) ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && *final(v) == *old(v) } { unimplemented!() }

// ---- the property ---------------------------------------------------------------------------------------
/// the instruction looked up for a frame, relative to its module
pub open spec fn instruction(sym: SymCache, l: CacheLookupResult, regs: Registers, signal: Option<Signal>, index: usize, adj: AdjustInstructionAddr) -> Option<u64> {
    match l.relative_addr {
        None => None,
        Some(rel) => match to_abs(*l.object_info, rel) {
            None => Some(rel),
            Some(abs) => {
                let ip = match sym.of().ip_name() { Some(n) if index == 0 => match regs.at(n) { Some(v) => Some(v.0), None => None }, _ => None };
                let sig = match signal { Some(s) => Some(s.0), None => None };
                to_rel(*l.object_info, match adj {
                    AdjustInstructionAddr::Yes => previous(sym.of(), abs),
                    AdjustInstructionAddr::No => aligned(sym.of(), abs),
                    AdjustInstructionAddr::Auto => caller(Instr { arch: sym.of(), addr: abs, crashing: index == 0, signal: sig, ip }),
                })
            }
        }
    }
}
/// addresses of a result are absolute, unless the module has no absolute addresses
pub open spec fn exposed(l: CacheLookupResult, rel: u64) -> u64 { if l.object_info.raw.image_addr.0 != 0 { match to_abs(*l.object_info, rel) { Some(a) => a, None => 0 } } else { rel } }
pub open spec fn exposed_mode(l: CacheLookupResult) -> AddrMode { if l.object_info.raw.image_addr.0 != 0 { AddrMode::Abs } else { AddrMode::Rel(l.module_index) } }
pub open spec fn frame_of(l: CacheLookupResult, rel: u64, index: usize, loc: SourceLocation, f: RawFrame, s: SymbolicatedFrame) -> bool {
    s.raw.instruction_addr.0 == exposed(l, rel) && s.raw.addr_mode == exposed_mode(l) && s.original_index == Some(index) && s.raw.package == l.object_info.raw.code_file && s.raw.lineno == Some(loc.line_())
    && s.raw.adjust_instruction_addr == f.adjust_instruction_addr && s.raw.function_id == f.function_id && s.raw.platform == f.platform && s.status is Symbolicated
}
/// one frame for every line found; the outermost function's address belongs to the last one
pub open spec fn frames_of(l: CacheLookupResult, rel: u64, index: usize, locs: Seq<SourceLocation>, f: RawFrame, v: Seq<SymbolicatedFrame>, last: bool) -> bool {
    v.len() == locs.len() && (forall|i: int| 0 <= i < v.len() ==> frame_of(l, rel, index, locs[i], f, #[trigger] v[i]))
    && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).raw.sym_addr == (if last && i + 1 == v.len() { Some(HexValue(exposed(l, locs[i].function_().entry() as u64))) } else { None::<HexValue> })
}
impl CacheLookupResult<'_> {
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs CacheLookupResult::preferred_addr_mode
//@ret r
//@spec
    ensures r == exposed_mode(*self)
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs CacheLookupResult::expose_preferred_addr
//@ret r
//@spec
    ensures r == exposed(*self, addr)
//@end
}
//@fn crates/symbolicator-native/src/symbolication/native.rs get_relative_caller_addr
//@ret r
//@spec
    ensures match instruction(*symcache, *lookup_result, *registers, signal, index, adjustment) { Some(a) => r == Ok::<u64, FrameStatus>(a), None => r == Err::<u64, FrameStatus>(FrameStatus::MissingSymbol) }
//@end
//@fn crates/symbolicator-native/src/symbolication/native.rs symbolicate_native_frame
//@sub? . clone ( ) ==> . vp_cl ( )
//@sub? rv . last_mut ( ) ==> vp_last_mut ( & mut rv )
//@ret r
//@spec
    ensures match r {
        Ok(v) => v@.len() > 0 && frames_of(lookup_result, relative_addr, index, symcache.lines(relative_addr), *frame, v@, true),
        Err(e) => e is MissingSymbol && symcache.lines(relative_addr).len() == 0 }
//@loop 0 iter=it
    invariant it.seq() == symcache.lines(relative_addr), instruction_addr.0 == exposed(lookup_result, relative_addr), rv@.len() == it.index@,
        frames_of(lookup_result, relative_addr, index, symcache.lines(relative_addr).take(it.index@ as int), *frame, rv@, false),
        it.index@ > 0 ==> sym_addr == Some(HexValue(exposed(lookup_result, symcache.lines(relative_addr)[it.index@ - 1].function_().entry() as u64)))
//@end
/// what symbolicating one frame gives (and makes of the frame)
#[verifier::opaque] pub open spec fn answer(caches: ModuleLookup, registers: Registers, signal: Option<Signal>, before: RawFrame, after: RawFrame, index: usize, adjustment: AdjustInstructionAddr, r: Result<Vec<SymbolicatedFrame>, FrameStatus>) -> bool {
    module_at(caches.modules@, before.instruction_addr.0, before.addr_mode, found(caches.modules@, before.instruction_addr.0, before.addr_mode)) && (match found(caches.modules@, before.instruction_addr.0, before.addr_mode) {
            None => r == Err::<Vec<SymbolicatedFrame>, FrameStatus>(FrameStatus::UnknownImage) && after == before,
            Some(i) => { let m = caches.modules@[i];
                after == (RawFrame { package: m.object_info.raw.code_file, ..before })
                && match m.cache {
                    Ok(CacheFileEntry::SymCache(s)) => {
                        let l = CacheLookupResult { module_index: m.module_index, object_info: &m.object_info, cache: &m.cache,
                            relative_addr: match before.addr_mode { AddrMode::Abs => to_rel(m.object_info, before.instruction_addr.0), AddrMode::Rel(_) => Some(before.instruction_addr.0) } };
                        match instruction(s.cache(), l, registers, signal, index, adjustment) {
                            None => r == Err::<Vec<SymbolicatedFrame>, FrameStatus>(FrameStatus::MissingSymbol),
                            Some(a) => match r { Ok(v) => v@.len() > 0 && frames_of(l, a, index, s.cache().lines(a), after, v@, true), Err(e) => e is MissingSymbol && s.cache().lines(a).len() == 0 } } }
                    Ok(_) => true,
                    Err(CacheError::Malformed(_)) => r == Err::<Vec<SymbolicatedFrame>, FrameStatus>(FrameStatus::Malformed),
                    Err(_) => r == Err::<Vec<SymbolicatedFrame>, FrameStatus>(FrameStatus::Missing),
                } }
        })
}
//@fn crates/symbolicator-native/src/symbolication/symbolicate.rs symbolicate_frame
//@sub? . clone_from ( ==> . vp_clone_from (
//@ret r
//@spec
    requires caches.wf()
    ensures answer(*caches, *registers, signal, *old(frame), *final(frame), index, adjustment, r)
//@start
    reveal(answer);
//@end

// ---- a thread ------------------------------------------------------------------------------------------------
//@item crates/symbolicator-native/src/interface.rs CompleteStacktrace derive=
//@item crates/symbolicator-native/src/metrics.rs StacktraceMetrics derive=
pub open spec fn room(m: StacktraceMetrics, n: int) -> bool {
    m.truncated_traces + n <= u64::MAX && m.short_traces + n <= u64::MAX && m.bad_traces + n <= u64::MAX && m.scanned_frames + n <= u64::MAX && m.unsymbolicated_frames + n <= u64::MAX && m.unsymbolicated_context_frames + n <= u64::MAX
    && m.unsymbolicated_scanned_frames + n <= u64::MAX && m.unsymbolicated_cfi_frames + n <= u64::MAX && m.unmapped_frames + n <= u64::MAX }
/// frames and their positions, one after the other
pub struct VpPeek { pub v: Vec<RawFrame>, pub items: Ghost<Seq<RawFrame>>, pub at: Ghost<int> }
#[verifier::external_body] pub fn vp_peekable(v: Vec<RawFrame>) -> (r: VpPeek) ensures r.items@ == v@, r.at@ == 0 { unimplemented!() }
impl VpPeek {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, RawFrame)>) ensures final(self).items == old(self).items, match r { Some((i, f)) => old(self).at@ < old(self).items@.len() && i == old(self).at@ && f == old(self).items@[i as int] && final(self).at@ == old(self).at@ + 1, None => old(self).at@ >= old(self).items@.len() && final(self).at == old(self).at } { unimplemented!() }
    #[verifier::external_body] pub fn vp_done(&mut self) -> (r: bool) ensures *final(self) == *old(self), r == (old(self).at@ >= old(self).items@.len()) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_demangle(f: &RawFrame) -> Option<String> { unimplemented!() }
#[verifier::external_body] pub fn vp_replace(o: &mut Option<String>, s: String) -> (r: Option<String>) ensures r == *old(o), *final(o) == Some(s) { unimplemented!() }
#[verifier::external_body] pub fn vp_after_start(v: &Vec<SymbolicatedFrame>) -> (r: bool) ensures r == at_start(v@) { unimplemented!() }
#[verifier::external_body] pub fn vp_no_base(v: &Vec<SymbolicatedFrame>) -> bool { unimplemented!() }
pub struct Thread { pub caches: ModuleLookup, pub registers: Registers, pub signal: Option<Signal>, pub default: AdjustInstructionAddr, pub frames: Seq<RawFrame> }
/// the answer to a frame: the frames found for it, or itself with the reason; a scanned frame known to be wrong and the frame in
/// no module that follows the bottom of a thread are left out
pub open spec fn at_start(v: Seq<SymbolicatedFrame>) -> bool { v.len() > 0 && v.last().raw.function is Some && v.last().raw.function->Some_0@ == "_start"@ }
pub open spec fn given(f: RawFrame, after: RawFrame, index: usize, last: bool, r: Result<Vec<SymbolicatedFrame>, FrameStatus>, earlier: Seq<SymbolicatedFrame>, s: Seq<SymbolicatedFrame>) -> bool {
    match r {
        Ok(v) => s =~= v@,
        Err(status) => if f.trust is Scan && (status is MissingSymbol || status is UnknownImage) || status is UnknownImage && last && at_start(earlier) { s.len() == 0 } else {
            s.len() == 1 && s[0].status == status && s[0].original_index == Some(index) && s[0].raw == (RawFrame { function: s[0].raw.function, symbol: s[0].raw.symbol, ..after })
        } }
}
#[verifier::opaque] pub open spec fn answered(t: Thread, i: int, earlier: Seq<SymbolicatedFrame>, s: Seq<SymbolicatedFrame>) -> bool {
    exists|after: RawFrame, r: Result<Vec<SymbolicatedFrame>, FrameStatus>| #[trigger] answer(t.caches, t.registers, t.signal, t.frames[i], after, i as usize, adjustment(t.frames[i], t.default), r) && given(t.frames[i], after, i as usize, i + 1 == t.frames.len(), r, earlier, s)
}
/// the frames of a thread are answered one by one, in order: the answer to the i-th lies between the i-th cut and the next
pub open spec fn cut_by(t: Thread, n: int, out: Seq<SymbolicatedFrame>, cuts: Seq<int>) -> bool {
    cuts.len() == n + 1 && cuts[0] == 0 && cuts[n] == out.len() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] cuts[i] <= cuts[i + 1] <= out.len())
    && forall|i: int| 0 <= i < n ==> answered(t, i, out.take(cuts[i]), out.subrange(#[trigger] cuts[i], cuts[i + 1]))
}
#[verifier::opaque] pub open spec fn answers(t: Thread, n: int, out: Seq<SymbolicatedFrame>) -> bool { exists|cuts: Seq<int>| #[trigger] cut_by(t, n, out, cuts) }
pub broadcast proof fn lemma_none(t: Thread, out: Seq<SymbolicatedFrame>)
    requires out.len() == 0
    ensures #[trigger] answers(t, 0, out)
{ reveal(answers); assert(cut_by(t, 0, out, seq![0int])); }
pub proof fn lemma_next(t: Thread, n: int, a: Seq<SymbolicatedFrame>, b: Seq<SymbolicatedFrame>)
    requires n >= 0, answers(t, n, a), b.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> b[i] == a[i], answered(t, n, a, b.skip(a.len() as int))
    ensures answers(t, n + 1, b)
{
    reveal(answers);
    let c = choose|c: Seq<int>| #[trigger] cut_by(t, n, a, c);
    let d = c.push(b.len() as int);
    assert(b.take(d[n]) =~= a);
    assert(b.skip(a.len() as int) =~= b.subrange(d[n], d[n + 1]));
    assert forall|i: int| 0 <= i < n + 1 implies 0 <= #[trigger] d[i] <= d[i + 1] <= b.len() && answered(t, i, b.take(d[i]), b.subrange(d[i], d[i + 1])) by { if i < n { assert(a.take(c[i]) =~= b.take(c[i])); assert(c[i] == d[i] && c[i + 1] == d[i + 1]); assert(a.subrange(c[i], c[i + 1]) =~= b.subrange(d[i], d[i + 1])); } }
    assert(b.take(d[n]) =~= a);
    assert(cut_by(t, n + 1, b, d));
}
pub broadcast proof fn lemma_kept(caches: ModuleLookup, regs: Registers, signal: Option<Signal>, f: RawFrame, after: RawFrame, index: usize, adj: AdjustInstructionAddr, r: Result<Vec<SymbolicatedFrame>, FrameStatus>)
    requires #[trigger] answer(caches, regs, signal, f, after, index, adj, r)
    ensures after == (RawFrame { package: after.package, ..f })
{ reveal(answer); }
pub broadcast proof fn lemma_answers(t: Thread, n: int, a: Seq<SymbolicatedFrame>, m: int, b: Seq<SymbolicatedFrame>, f: RawFrame, after: RawFrame, r: Result<Vec<SymbolicatedFrame>, FrameStatus>, index: usize, adj: AdjustInstructionAddr)
    requires 0 <= n < t.frames.len(), m == n + 1, #[trigger] answers(t, n, a), #[trigger] answer(t.caches, t.registers, t.signal, f, after, index, adj, r), f == t.frames[n], index == n, adj == adjustment(f, t.default),
        b.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> b[i] == a[i], given(f, after, index, m == t.frames.len(), r, a, b.skip(a.len() as int))
    ensures #[trigger] answers(t, m, b)
{ assert(answered(t, n, a, b.skip(a.len() as int))) by { reveal(answered); assert(n as usize == index); assert(answer(t.caches, t.registers, t.signal, t.frames[n], after, n as usize, adjustment(t.frames[n], t.default), r)); assert(given(t.frames[n], after, n as usize, n + 1 == t.frames.len(), r, a, b.skip(a.len() as int))); } lemma_next(t, n, a, b); }
//@fn crates/symbolicator-native/src/symbolication/symbolicate.rs symbolicate_stacktrace
//@sub? thread . frames . into_iter ( ) . enumerate ( ) . peekable ( ) ==> vp_peekable ( thread . frames )
//@sub? unsymbolicated_frames_iter . peek ( ) . is_none ( ) ==> unsymbolicated_frames_iter . vp_done ( )
//@sub? mangled . and_then ( | m | Name :: from ( m ) . demangle ( DEMANGLE_OPTIONS ) ) ==> vp_demangle ( & frame )
//@sub? let mangled = frame . function . as_deref ( ) . xor ( frame . symbol . as_deref ( ) ) ; ==>
//@sub? let is_start = | frame : & SymbolicatedFrame | frame . raw . function . as_deref ( ) == Some ( "_start" ) ; ==>
//@sub? frame . function . replace ( demangled ) ==> vp_replace ( & mut frame . function , demangled )
//@sub? symbolicated_frames . last ( ) . is_some_and ( is_start ) ==> vp_after_start ( & symbolicated_frames )
//@sub? symbolicated_frames . extend ( frames ) ==> vp_extend ( & mut symbolicated_frames , frames )
//@sub? ! symbolicated_frames . iter ( ) . rev ( ) . take ( 5 ) . any ( is_likely_base_frame ) ==> vp_no_base ( & symbolicated_frames )
//@ret r
//@spec
    requires caches.wf(), room(*old(metrics), (thread.frames@.len() + 1) as int)
    ensures answers(Thread { caches: *caches, registers: thread.registers, signal, default: thread_default(thread), frames: thread.frames@ }, thread.frames@.len() as int, r.frames@),
        r.thread_id == thread.thread_id, r.thread_name == thread.thread_name, r.is_requesting == thread.is_requesting, r.registers == thread.registers
//@start
    broadcast use lemma_none;
    let ghost vp_t = Thread { caches: *caches, registers: thread.registers, signal, default: thread_default(thread), frames: thread.frames@ };
//@loop 0
    invariant caches.wf(), vp_t.caches == *caches, vp_t.registers == thread.registers, vp_t.signal == signal, vp_t.default == default_adjustment, unsymbolicated_frames_iter.items@ == vp_t.frames,
        0 <= unsymbolicated_frames_iter.at@ <= vp_t.frames.len(), room(*metrics, vp_t.frames.len() - unsymbolicated_frames_iter.at@ + 1), answers(vp_t, unsymbolicated_frames_iter.at@, symbolicated_frames@)
    ensures unsymbolicated_frames_iter.at@ == vp_t.frames.len()
    decreases vp_t.frames.len() - unsymbolicated_frames_iter.at@
//@body 0
    broadcast use lemma_answers, lemma_kept;
//@end
}
fn main() {}
