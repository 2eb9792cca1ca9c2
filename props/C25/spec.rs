use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- memory: what can be read from where ------------------------------------------------------------------
/// the number that four / eight bytes at an offset mean, in the byte order of the host
pub uninterp spec fn word(b: Seq<u8>, o: int) -> u32;
pub uninterp spec fn long(b: Seq<u8>, o: int) -> u64;
/// where the bytes lie
pub uninterp spec fn address(b: Seq<u8>) -> int;
/// plain data: size, alignment, and the value that the bytes at an offset mean
pub trait Raw: Sized { spec fn sz() -> int; spec fn al() -> int; spec fn at(b: Seq<u8>, o: int) -> Self; }
impl Raw for u8 { open spec fn sz() -> int { 1 } open spec fn al() -> int { 1 } open spec fn at(b: Seq<u8>, o: int) -> u8 { b[o] } }
/// a pointer into a buffer: it may point at the end of the buffer, but not beyond
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Ptr<T> { p: *const T }
impl<T> Clone for Ptr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Ptr<T> {}
impl<T: Raw> Ptr<T> {
    pub uninterp spec fn buf(&self) -> Seq<u8>;
    pub uninterp spec fn off(&self) -> int;
    /// `<*const T>::add`
    #[verifier::external_body] pub fn add(self, n: usize) -> (r: Ptr<T>) requires self.off() + n * T::sz() <= self.buf().len() ensures r.buf() == self.buf(), r.off() == self.off() + n * T::sz() { unimplemented!() }
    /// `as *const U`
    #[verifier::external_body] pub fn vp_cast<U: Raw>(self) -> (r: Ptr<U>) ensures r.buf() == self.buf(), r.off() == self.off() { unimplemented!() }
}
pub trait VpAsPtr { fn vp_as_ptr(&self) -> Ptr<u8>; }
impl VpAsPtr for [u8] { #[verifier::external_body] fn vp_as_ptr(&self) -> (r: Ptr<u8>) ensures r.buf() == self@, r.off() == 0 { unimplemented!() } }
/// the places of n values of T, one after the other
pub open spec fn values<T: Raw>(b: Seq<u8>, o: int, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| T::at(b, o + T::sz() * i)) }
pub mod ptr {
    use super::*;
    /// reading a value needs it to lie in the buffer, ...
    #[verifier::external_body] pub unsafe fn read_unaligned<T: Raw>(p: Ptr<T>) -> (r: T) requires 0 <= p.off(), p.off() + T::sz() <= p.buf().len() ensures r == T::at(p.buf(), p.off()) { unimplemented!() }
    /// ... and references to it need it to be aligned too
    #[verifier::external_body] pub unsafe fn read<T: Raw>(p: Ptr<T>) -> (r: T) requires 0 <= p.off(), p.off() + T::sz() <= p.buf().len(), (address(p.buf()) + p.off()) % T::al() == 0 ensures r == T::at(p.buf(), p.off()) { unimplemented!() }
    #[verifier::external_body] pub fn slice_from_raw_parts<'a, T: Raw>(p: Ptr<T>, n: usize) -> (r: &'a [T]) requires 0 <= p.off(), p.off() + T::sz() * n <= p.buf().len(), T::al() == 1 || (address(p.buf()) + p.off()) % T::al() == 0 ensures r@ == values::<T>(p.buf(), p.off(), n as int) { unimplemented!() }
}
pub mod mem { use super::*; #[verifier::external_body] pub fn size_of<T: Raw>() -> (r: usize) ensures r == T::sz() { unimplemented!() } }
pub trait VpGetRange<T> { spec fn all(&self) -> Seq<T>; fn get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) ensures r is Some == (a <= b <= self.all().len()), r is Some ==> r->Some_0@ == self.all().subrange(a as int, b as int); }
impl<T> VpGetRange<T> for [T] { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() } }
impl<T> VpGetRange<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() } }
pub trait VpVecIter<T> { spec fn all_(&self) -> Seq<T>; fn iter(&self) -> (r: &[T]) ensures r@ == self.all_(); }
/// text of bytes, malformed parts replaced
pub uninterp spec fn lossy(b: Seq<u8>) -> Str;
#[verifier::external_body] pub fn vp_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }

// ---- the documented format ---------------------------------------------------------------------------------
pub open spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
pub open spec fn n_threads(b: Seq<u8>) -> int { word(b, 4) as int }
pub open spec fn n_frames(b: Seq<u8>) -> int { word(b, 8) as int }
pub open spec fn n_symbols(b: Seq<u8>) -> int { word(b, 12) as int }
/// the thread list follows the header, the frame list the thread list at a multiple of eight, and then come the symbols
pub open spec fn thread_at(i: int) -> int { 16 + 12 * i }
pub open spec fn frame_at(b: Seq<u8>, i: int) -> int { 16 + up8(12 * n_threads(b)) + 16 * i }
pub open spec fn symbols_at(b: Seq<u8>) -> int { frame_at(b, n_frames(b)) }
pub open spec fn framed(b: Seq<u8>) -> bool { b.len() >= 16 && word(b, 0) == 1 && b.len() == symbols_at(b) + n_symbols(b) }
pub open spec fn t_id(b: Seq<u8>, t: int) -> u32 { word(b, thread_at(t)) }
pub open spec fn t_start(b: Seq<u8>, t: int) -> int { word(b, thread_at(t) + 4) as int }
pub open spec fn t_count(b: Seq<u8>, t: int) -> int { word(b, thread_at(t) + 8) as int }
pub open spec fn f_addr(b: Seq<u8>, f: int) -> u64 { long(b, frame_at(b, f)) }
pub open spec fn f_start(b: Seq<u8>, f: int) -> int { word(b, frame_at(b, f) + 8) as int }
pub open spec fn f_len(b: Seq<u8>, f: int) -> int { word(b, frame_at(b, f) + 12) as int }
pub open spec fn frame_ok(b: Seq<u8>, f: int) -> bool { f_start(b, f) + f_len(b, f) <= n_symbols(b) }
pub open spec fn thread_ok(b: Seq<u8>, t: int) -> bool { t_start(b, t) + t_count(b, t) <= n_frames(b) && forall|f: int| t_start(b, t) <= f < t_start(b, t) + t_count(b, t) ==> #[trigger] frame_ok(b, f) }
/// a stream without any number that leads out of it
pub open spec fn well_formed(b: Seq<u8>) -> bool { framed(b) && forall|t: int| 0 <= t < n_threads(b) ==> #[trigger] thread_ok(b, t) }
pub open spec fn symbol(b: Seq<u8>, f: int) -> Seq<u8> { b.subrange(symbols_at(b) + f_start(b, f), symbols_at(b) + f_start(b, f) + f_len(b, f)) }
pub open spec fn is_frame(b: Seq<u8>, f: int, r: TyRawFrame) -> bool {
    r.instruction_addr.0 == f_addr(b, f) && r.function is Some && r.function->Some_0@ == lossy(symbol(b, f)) && r.trust == FrameTrust::PreWalked && r.rest.is_default()
}
/// exactly the frames recorded for the thread
pub open spec fn is_stack(b: Seq<u8>, t: int, r: RawStacktrace) -> bool {
    &&& r.thread_id == Some(t_id(b, t) as u64) && r.rest.is_default()
    &&& r.frames@.len() == t_count(b, t)
    &&& forall|k: int| 0 <= k < r.frames@.len() ==> is_frame(b, t_start(b, t) + k, #[trigger] r.frames@[k])
}
pub open spec fn is_result(b: Seq<u8>, r: Seq<RawStacktrace>) -> bool { r.len() == n_threads(b) && forall|t: int| 0 <= t < r.len() ==> is_stack(b, t, #[trigger] r[t]) }

// ---- the parsed stream -------------------------------------------------------------------------------------
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawHeader
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawThread
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawFrame
//@reprc crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawHeader
//@reprc crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawThread
//@reprc crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::RawFrame
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Error
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Format
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Thread
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Frame
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs MINIDUMP_FORMAT_VERSION
//@item crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs MINIDUMP_EXTENSION_TYPE
//@isub u32 :: from_be_bytes ( [ b'S' , b'y' , 0 , 1 ] ) ==> 0x53790001u32
/// the tables of a stream
pub open spec fn reads<'a>(f: Format<'a>, b: Seq<u8>) -> bool {
    framed(b) && f.threads@ == values::<RawThread>(b, 16, n_threads(b)) && f.frames@ == values::<RawFrame>(b, frame_at(b, 0), n_frames(b))
        && f.symbol_bytes@ == b.subrange(symbols_at(b), b.len() as int)
}
pub proof fn lemma_bytes(b: Seq<u8>, o: int, n: int) requires 0 <= o, 0 <= n, o + n <= b.len() ensures values::<u8>(b, o, n) == b.subrange(o, o + n) { assert(values::<u8>(b, o, n) =~= b.subrange(o, o + n)); }
pub open spec fn frame_facts(b: Seq<u8>, f: int, x: Frame) -> bool {
    x.frame.instruction_addr == f_addr(b, f) && x.frame.symbol_offset == f_start(b, f) && x.frame.symbol_len == f_len(b, f) && x.format.symbol_bytes@.len() == n_symbols(b)
        && (frame_ok(b, f) ==> x.format.symbol_bytes@.subrange(f_start(b, f), f_start(b, f) + f_len(b, f)) == symbol(b, f))
}
pub proof fn lemma_frame(b: Seq<u8>, f: int, x: Frame) requires frame_of(b, f, x) ensures frame_facts(b, f, x)
{ if frame_ok(b, f) { assert(x.format.symbol_bytes@.subrange(f_start(b, f), f_start(b, f) + f_len(b, f)) =~= symbol(b, f)); } }
pub proof fn lemma_thread(b: Seq<u8>, t: int, x: Thread) requires thread_of(b, t, x)
    ensures x.thread.thread_id == t_id(b, t), x.thread.start_frame == t_start(b, t), x.thread.num_frames == t_count(b, t), x.format.frames@.len() == n_frames(b) {}
pub mod format { pub use super::*; }
pub mod types { pub use super::*; }
/// everything else about a frame or a stack, not recorded in the stream
#[verifier::external_body] pub struct Rest { x: u8 }
impl Rest { pub uninterp spec fn is_default(&self) -> bool; }
pub mod hex { pub struct HexValue(pub u64); }
pub use hex::HexValue;
//@item crates/symbolicator-native/src/interface.rs FrameTrust
pub struct TyRawFrame { pub instruction_addr: HexValue, pub function: Option<String>, pub trust: FrameTrust, pub rest: Rest }
pub struct RawStacktrace { pub thread_id: Option<u64>, pub frames: Vec<TyRawFrame>, pub rest: Rest }
impl TyRawFrame { #[verifier::external_body] pub fn vp_default() -> (r: Self) ensures r.rest.is_default() { unimplemented!() } }
impl RawStacktrace { #[verifier::external_body] pub fn vp_default() -> (r: Self) ensures r.rest.is_default() { unimplemented!() } }
/// of the minidump crate
pub enum MdError { StreamNotFound, Other }
#[verifier::external_body] pub struct Minidump { x: u8 }
impl Minidump {
    pub uninterp spec fn stream(&self, ty: u32) -> Result<Seq<u8>, MdError>;
    #[verifier::external_body] pub fn get_raw_stream(&self, ty: u32) -> (r: Result<&[u8], MdError>) ensures
        r is Ok ==> self.stream(ty) is Ok && r->Ok_0@ == self.stream(ty)->Ok_0, r is Err ==> self.stream(ty) is Err && r->Err_0 == self.stream(ty)->Err_0 { unimplemented!() }
}
pub enum ExtractStacktraceError { MinidumpError(MdError), FormatError(Error) }
/// `?` on the errors of the parts, as #[from] converts them
pub trait VpQ<T> { spec fn okv(self) -> Option<T>; fn vp_q(self) -> (r: Result<T, ExtractStacktraceError>) ensures match r { Ok(v) => self.okv() == Some(v), Err(_) => self.okv() is None }; }
impl<T> VpQ<T> for Result<T, Error> { open spec fn okv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } } fn vp_q(self) -> (r: Result<T, ExtractStacktraceError>) { match self { Ok(v) => Ok(v), Err(e) => Err(ExtractStacktraceError::FormatError(e)) } } }
impl ExtractStacktraceError { pub fn from(e: Error) -> (r: Self) { ExtractStacktraceError::FormatError(e) } pub fn from_md(e: MdError) -> (r: Self) { ExtractStacktraceError::MinidumpError(e) } }

//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs align_to_eight
//@ret r
//@spec
    requires to_align < 0x1_0000_0000_0000
    ensures r < 8, to_align + r == up8(to_align as int)
//@end
pub open spec fn thread_list<'a>(f: Format<'a>, n: int, s: Seq<Thread<'a>>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] s[i]).format == f && *s[i].thread == f.threads@[i] }
pub open spec fn frame_list<'a>(f: Format<'a>, a: int, n: int, s: Seq<Frame<'a>>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] s[i]).format == f && *s[i].frame == f.frames@[a + i] }
impl<'data> Format<'data> {
#[verifier::loop_isolation(false)]
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Format::parse nloops=2 ren=as_ptr
//@sub as * const RawHeader ==> . vp_cast :: < RawHeader > ( )
//@sub as * const RawThread ==> . vp_cast :: < RawThread > ( )
//@sub as * const RawFrame ==> . vp_cast :: < RawFrame > ( )
//@ret r
//@spec
    ensures r is Ok == framed(buf@), r is Ok ==> reads(r->Ok_0, buf@)
//@start
    proof { assert forall|o: int, n: int| 0 <= o && 0 <= n && o + n <= buf@.len() implies #[trigger] values::<u8>(buf@, o, n) == buf@.subrange(o, o + n) by { lemma_bytes(buf@, o, n); } }
//@loop 0 iter=it
    invariant vp_acc@ =~= values::<RawThread>(buf@, 16, it.index@ as int), it.seq().len() == header.num_threads
//@loop 1 iter=it
    invariant vp_acc@ =~= values::<RawFrame>(buf@, frame_at(buf@, 0), it.index@ as int), it.seq().len() == header.num_frames
//@end
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Format::threads nloops=1
//@ret r
//@spec
    ensures thread_list(*self, self.threads@.len() as int, r@)
//@loop 0 iter=it
    invariant it.seq().len() == self.threads@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.threads@[i],
        thread_list(*self, it.index@ as int, vp_acc@)
//@end
}
impl<'data> Thread<'data> {
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Thread::thread_id
//@ret r
//@spec
    ensures r == self.thread.thread_id
//@end
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Thread::frames nloops=1
//@ret r
//@spec
    ensures r is Ok == (self.thread.start_frame + self.thread.num_frames <= self.format.frames@.len()),
        r is Ok ==> frame_list(*self.format, self.thread.start_frame as int, self.thread.num_frames as int, r->Ok_0@)
//@loop 0 iter=it
    invariant it.seq().len() == frames@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == frames@[i],
        self.thread.start_frame + self.thread.num_frames <= self.format.frames@.len(), frames@ == self.format.frames@.subrange(self.thread.start_frame as int, self.thread.start_frame + self.thread.num_frames),
        frame_list(*self.format, self.thread.start_frame as int, it.index@ as int, vp_acc@)
//@end
}
impl<'data> Frame<'data> {
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Frame::instruction_addr
//@ret r
//@spec
    ensures r == self.frame.instruction_addr
//@end
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs format::Frame::symbol
//@ret r
//@spec
    ensures r is Ok == (self.frame.symbol_offset + self.frame.symbol_len <= self.format.symbol_bytes@.len()),
        r is Ok ==> r->Ok_0@ == self.format.symbol_bytes@.subrange(self.frame.symbol_offset as int, self.frame.symbol_offset + self.frame.symbol_len)
//@end
}
pub open spec fn frame_of(b: Seq<u8>, f: int, x: Frame) -> bool { 0 <= f < n_frames(b) && reads(*x.format, b) && *x.frame == x.format.frames@[f] }
pub open spec fn thread_of(b: Seq<u8>, t: int, x: Thread) -> bool { 0 <= t < n_threads(b) && reads(*x.format, b) && *x.thread == x.format.threads@[t] }
impl TyRawFrame {
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs <TryFrom for types::RawFrame>::try_from stub=default
//@sub types :: RawFrame ==> TyRawFrame
//@sub Self :: Error ==> ExtractStacktraceError
//@sub Default :: default ( ) ==> TyRawFrame :: vp_default ( )
//@sub String :: from_utf8_lossy ( symbol ) . into_owned ( ) ==> vp_lossy(symbol)
//@sub . symbol ( ) ? ==> . symbol ( ) . vp_q ( ) ?
//@ret r
//@spec
    ensures forall|b: Seq<u8>, f: int| #[trigger] frame_of(b, f, frame) ==> r is Ok == frame_ok(b, f) && (r is Ok ==> is_frame(b, f, r->Ok_0))
//@start
    proof { assert forall|b: Seq<u8>, f: int| #[trigger] frame_of(b, f, frame) implies frame_facts(b, f, frame) by { lemma_frame(b, f, frame); } }
//@end
}
pub open spec fn thread_facts(b: Seq<u8>, t: int, x: Thread) -> bool { x.thread.thread_id == t_id(b, t) && x.thread.start_frame == t_start(b, t) && x.thread.num_frames == t_count(b, t) && x.format.frames@.len() == n_frames(b) }
/// the first n frames of the thread are read
pub open spec fn prefix_ok(x: Thread, s: Seq<TyRawFrame>, n: int) -> bool {
    s.len() == n && forall|b: Seq<u8>, t: int| #[trigger] thread_of(b, t, x) ==> (forall|k: int| 0 <= k < n ==> is_frame(b, t_start(b, t) + k, #[trigger] s[k])) && (forall|f: int| t_start(b, t) <= f < t_start(b, t) + n ==> #[trigger] frame_ok(b, f))
}
impl RawStacktrace {
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs <TryFrom for types::RawStacktrace>::try_from stub=default iters=frames,vp_q nloops=1
//@sub types :: RawFrame ==> TyRawFrame
//@sub Self :: Error ==> ExtractStacktraceError
//@sub Default :: default ( ) ==> RawStacktrace :: vp_default ( )
//@sub . frames ( ) ? ==> . frames ( ) . vp_q ( ) ?
//@ret r
//@spec
    ensures forall|b: Seq<u8>, t: int| #[trigger] thread_of(b, t, thread) ==> r is Ok == thread_ok(b, t) && (r is Ok ==> is_stack(b, t, r->Ok_0))
//@start
    proof { assert forall|b: Seq<u8>, t: int| #[trigger] thread_of(b, t, thread) implies thread_facts(b, t, thread) by { lemma_thread(b, t, thread); } }
//@loop 0 iter=it
    invariant frame_list(*thread.format, thread.thread.start_frame as int, thread.thread.num_frames as int, it.seq()), prefix_ok(thread, vp_acc@, it.index@ as int),
        thread.thread.start_frame + thread.thread.num_frames <= thread.format.frames@.len(), forall|b: Seq<u8>, t: int| #[trigger] thread_of(b, t, thread) ==> thread_facts(b, t, thread)
//@body 0
    proof { assert forall|b: Seq<u8>, t: int| #[trigger] thread_of(b, t, thread) implies frame_of(b, t_start(b, t) + it.index@, it.seq()[it.index@ as int]) by { } }
//@end
}
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs parse_stacktraces_from_raw_extension
//@ret r
//@spec
    ensures r is Ok == framed(buf@), r is Ok ==> reads(r->Ok_0, buf@)
//@end
/// the first n threads are read
pub open spec fn stacks_ok(b: Seq<u8>, s: Seq<RawStacktrace>, n: int) -> bool { s.len() == n && (forall|t: int| 0 <= t < n ==> is_stack(b, t, #[trigger] s[t])) && forall|t: int| 0 <= t < n ==> #[trigger] thread_ok(b, t) }
//@fn crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs parse_stacktraces_from_minidump iters=threads nloops=1
//@sub minidump :: Error ==> MdError
//@sub return Err ( e . into ( ) ) ==> return Err(ExtractStacktraceError::from_md(e))
//@ret r
//@spec
    ensures match dump.stream(0x53790001) {
        Err(MdError::StreamNotFound) => r is Ok && r->Ok_0 is None,
        Err(_) => r is Err,
        Ok(b) => if well_formed(b) { r is Ok && r->Ok_0 is Some && is_result(b, r->Ok_0->Some_0@) } else { r is Err },
    }
//@loop 0 iter=it
    invariant dump.stream(0x53790001) is Ok, reads(parsed, dump.stream(0x53790001)->Ok_0), thread_list(parsed, n_threads(dump.stream(0x53790001)->Ok_0), it.seq()), stacks_ok(dump.stream(0x53790001)->Ok_0, vp_acc@, it.index@ as int)
//@body 0
    proof { assert(thread_of(dump.stream(0x53790001)->Ok_0, it.index@ as int, it.seq()[it.index@ as int])); }
//@end
}
fn main() {}
