use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
//@include ../prelude.rs

// ---- numerals ------------------------------------------------------------------------------------------
pub open spec fn dig(d: int) -> char { seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f'][d] }
/// the numeral of n to the base r, lower case, without leading zeros
pub open spec fn num(n: int, r: int) -> Str decreases n when r >= 2 via num_down { if n < r || n <= 0 { seq![dig(n)] } else { num(n / r, r).push(dig(n % r)) } }
#[via_fn]
proof fn num_down(n: int, r: int) { if r >= 2 && !(n < r || n <= 0) { assert(0 <= n / r < n) by (nonlinear_arith) requires n >= r, r >= 2; } }
/// the value of a digit in either case
pub open spec fn dv(c: char, r: int) -> Option<int> {
    let v = if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { 99 };
    if v < r { Some(v) } else { None }
}
/// the value of a numeral: one or more digits
pub open spec fn rdx(s: Str, r: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s.len() == 1 { dv(s[0], r) } else {
        match (rdx(s.drop_last(), r), dv(s.last(), r)) { (Some(a), Some(d)) => Some(a * r + d), _ => None } }
}
pub open spec fn unsigned(s: Str) -> Str { if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s } }
/// what the standard library reads an unsigned 64-bit number from
pub open spec fn reads(s: Str, r: int) -> Option<int> { match rdx(unsigned(s), r) { Some(n) => if n <= u64::MAX { Some(n) } else { None }, None => None } }
pub broadcast proof fn lemma_num(n: int, r: int)
    requires n >= 0, r == 10 || r == 16
    ensures rdx(#[trigger] num(n, r), r) == Some(n), num(n, r).len() > 0, num(n, r)[0] != '+'
    decreases n
{
    if n < r || n <= 0 { assert(dv(dig(n), r) == Some(n)); assert(dig(n) != '+'); } else {
        assert(n / r < n && n / r >= 0 && 0 <= n % r < r && n == (n / r) * r + n % r) by (nonlinear_arith) requires n >= r, r >= 2;
        lemma_num(n / r, r);
        assert(num(n, r).drop_last() =~= num(n / r, r));
        assert(dv(dig(n % r), r) == Some(n % r));
        assert(num(n, r)[0] == num(n / r, r)[0]);
    }
}
/// the formatter of the standard library writes numerals
#[verifier::external_body]
pub broadcast proof fn ax_dec(n: int) requires 0 <= n <= u64::MAX ensures #[trigger] dec(n) == num(n, 10) {}

// ---- what the code depends on --------------------------------------------------------------------------
#[derive(Debug)] pub struct ParseIntError {}
#[derive(Debug)] pub struct ParseAddrModeError;
#[derive(Debug)] pub struct Infallible {}
pub struct FmtError {}
#[verifier::external_body] pub struct Formatter { f: u8 }
impl Formatter {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body] pub fn vp_write_fmt(&mut self, s: &String) -> (r: Result<(), FmtError>) ensures r.is_ok(), final(self).view() =~= old(self).view() + s@ { unimplemented!() }
}
pub trait VpAlt { spec fn av(&self) -> Str; fn vp_push_alx(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.av(); }
impl VpAlt for u64 { open spec fn av(&self) -> Str { "0x"@ + num(*self as int, 16) } #[verifier::external_body] fn vp_push_alx(&self, o: &mut String) { unimplemented!() } }
#[verifier::external_body]
pub fn vp_from_str_radix(s: &str, r: u32) -> (n: Result<u64, ParseIntError>)
    requires 2 <= r <= 36
    ensures r == 10 || r == 16 ==> (match n { Ok(v) => reads(s@, r as int) == Some(v as int), Err(_) => reads(s@, r as int) is None }) { unimplemented!() }
/// text parsed as the type the context asks for
pub trait VpParsed: Sized { type E; spec fn parsed(s: Str) -> Option<Self>; }
impl VpParsed for u64 { type E = ParseIntError; open spec fn parsed(s: Str) -> Option<u64> { match reads(s, 10) { Some(n) => Some(n as u64), None => None } } }
impl VpParsed for usize { type E = ParseIntError; open spec fn parsed(s: Str) -> Option<usize> { match reads(s, 10) { Some(n) => Some(n as usize), None => None } } }
impl VpParsed for HexValue { type E = ParseIntError; open spec fn parsed(s: Str) -> Option<HexValue> { hex_of(s) } }
impl VpParsed for ObjectType { type E = Infallible; open spec fn parsed(s: Str) -> Option<ObjectType> { Some(type_of(s)) } }
pub trait VpParse { fn vp_parse<T: VpParsed>(&self) -> Result<T, T::E>; }
impl VpParse for str { #[verifier::external_body] fn vp_parse<T: VpParsed>(&self) -> (r: Result<T, T::E>) ensures (match r { Ok(n) => T::parsed(self@) == Some(n), Err(_) => T::parsed(self@) is None }) { unimplemented!() } }
/// to_string writes what Display writes
pub trait VpShow { spec fn shown(&self) -> Str; fn vp_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VpShow for HexValue { open spec fn shown(&self) -> Str { hex_text(*self) } #[verifier::external_body] fn vp_to_string(&self) -> String { unimplemented!() } }
impl VpShow for AddrMode { open spec fn shown(&self) -> Str { mode_text(*self) } #[verifier::external_body] fn vp_to_string(&self) -> String { unimplemented!() } }
/// serde: a serializer puts one value on the wire, a deserializer finds one there
pub enum Wire { Text(Str), Num(int) }
pub trait Serializer: Sized { type Ok; type Error; spec fn wire(k: Self::Ok) -> Wire;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wire(r->Ok_0) == Wire::Text(v@); }
pub trait Deserializer<'de>: Sized { type Error; spec fn has(&self) -> Wire;
    fn vp_text(self) -> (r: Result<VpCow<'de>, Self::Error>) ensures r is Ok ==> self.has() == Wire::Text(r->Ok_0.view()); }
pub mod de { pub trait Error: Sized { fn custom<X>(x: X) -> Self; } }
pub struct HexVisitor;

// ---- what is on the wire -------------------------------------------------------------------------------
//@item crates/symbolicator-service/src/utils/hex.rs HexValue derive=Clone,Copy
//@item crates/symbolicator-native/src/interface.rs AddrMode derive=Clone,Copy
//@item crates/symbolicator-sources/src/types.rs ObjectType derive=Clone,Copy
//@item crates/symbolicator-sources/src/filetype.rs FileType derive=Clone,Copy
pub open spec fn hex_text(v: HexValue) -> Str { "0x"@ + num(v.0 as int, 16) }
/// hexadecimal after 0x or 0X, decimal otherwise
pub open spec fn hex_of(s: Str) -> Option<HexValue> {
    match (if has_prefix(s, "0x"@) || has_prefix(s, "0X"@) { reads(s.skip(2), 16) } else { reads(s, 10) }) { Some(n) => Some(HexValue(n as u64)), None => None }
}
pub open spec fn mode_text(m: AddrMode) -> Str { match m { AddrMode::Abs => "abs"@, AddrMode::Rel(i) => "rel:"@ + dec(i as int) } }
/// abs, or rel: and the decimal index of a module
pub open spec fn mode_of(s: Str) -> Option<AddrMode> {
    if s == "abs"@ { Some(AddrMode::Abs) } else if has_prefix(s, "rel:"@) { match reads(s.skip(4), 10) { Some(n) => Some(AddrMode::Rel(n as usize)), None => None } } else { None }
}
pub open spec fn type_text(t: ObjectType) -> Str {
    match t { ObjectType::Elf => "elf"@, ObjectType::Macho => "macho"@, ObjectType::Pe => "pe"@, ObjectType::PeDotnet => "pe_dotnet"@, ObjectType::Wasm => "wasm"@, ObjectType::Unknown => "unknown"@ }
}
/// every other spelling is an unknown type
pub open spec fn type_of(s: Str) -> ObjectType {
    if s == "elf"@ { ObjectType::Elf } else if s == "macho"@ { ObjectType::Macho } else if s == "pe"@ { ObjectType::Pe } else if s == "pe_dotnet"@ { ObjectType::PeDotnet } else if s == "wasm"@ { ObjectType::Wasm } else { ObjectType::Unknown }
}
pub open spec fn file_text(t: FileType) -> Str {
    match t {
        FileType::Pe => "pe"@, FileType::Pdb => "pdb"@, FileType::PortablePdb => "portablepdb"@, FileType::MachDebug => "mach_debug"@, FileType::MachCode => "mach_code"@,
        FileType::ElfDebug => "elf_debug"@, FileType::ElfCode => "elf_code"@, FileType::WasmDebug => "wasm_debug"@, FileType::WasmCode => "wasm_code"@, FileType::Breakpad => "breakpad"@,
        FileType::SourceBundle => "sourcebundle"@, FileType::UuidMap => "uuidmap"@, FileType::BcSymbolMap => "bcsymbolmap"@, FileType::Il2cpp => "il2cpp"@, FileType::Proguard => "proguard"@ }
}
/// a negative number stands for its two's complement
pub open spec fn number(w: i64) -> HexValue { HexValue(if w < 0 { !((!w) as u64) } else { w as u64 }) }

// ---- what is written is read back as the same value ----------------------------------------------------
pub proof fn theorem_hex(v: HexValue)
    ensures hex_of(hex_text(v)) == Some(v), ascii(hex_text(v))
{
    reveal_strlit("0x"); reveal_strlit("0X");
    let t = hex_text(v);
    assert(t.subrange(0, 2) =~= "0x"@); assert(t.skip(2) =~= num(v.0 as int, 16));
    lemma_num(v.0 as int, 16); lemma_ascii(v.0 as int, 16);
}
pub proof fn lemma_ascii(n: int, r: int) requires n >= 0, r == 10 || r == 16 ensures ascii(num(n, r)) decreases n
{ if n < r { assert((dig(n) as u32) < 128); } else { assert(n / r < n && n / r >= 0 && 0 <= n % r < r) by (nonlinear_arith) requires n >= r, r >= 2; lemma_ascii(n / r, r); assert((dig(n % r) as u32) < 128); } }
pub proof fn theorem_mode(m: AddrMode)
    ensures mode_of(mode_text(m)) == Some(m)
{
    broadcast use {ax_dec, lemma_num};
    reveal_strlit("abs"); reveal_strlit("rel:");
    match m { AddrMode::Abs => {}, AddrMode::Rel(i) => { let t = mode_text(m); assert(t[0] == 'r'); assert("abs"@[0] == 'a'); assert(t.subrange(0, 4) =~= "rel:"@); assert(t.skip(4) =~= dec(i as int)); } }
}
pub proof fn theorem_type(t: ObjectType)
    ensures type_of(type_text(t)) == t
{
    reveal_strlit("elf"); reveal_strlit("macho"); reveal_strlit("pe"); reveal_strlit("pe_dotnet"); reveal_strlit("wasm"); reveal_strlit("unknown");
    assert("elf"@.len() == 3 && "macho"@.len() == 5 && "pe"@.len() == 2 && "pe_dotnet"@.len() == 9 && "wasm"@.len() == 4 && "unknown"@.len() == 7);
}
/// different file types are written differently
pub proof fn theorem_file(a: FileType, b: FileType)
    ensures file_text(a) == file_text(b) ==> a == b
{
    reveal_strlit("pe"); reveal_strlit("pdb"); reveal_strlit("portablepdb"); reveal_strlit("mach_debug"); reveal_strlit("mach_code"); reveal_strlit("elf_debug"); reveal_strlit("elf_code"); reveal_strlit("wasm_debug");
    reveal_strlit("wasm_code"); reveal_strlit("breakpad"); reveal_strlit("sourcebundle"); reveal_strlit("uuidmap"); reveal_strlit("bcsymbolmap"); reveal_strlit("il2cpp"); reveal_strlit("proguard");
    let (x, y) = (file_text(a), file_text(b));
    assert(x.len() != y.len() || x[0] != y[0] || x[1] != y[1] || a == b);
}

/// the place after an ASCII prefix is on a character boundary
pub proof fn lemma_after(s: Str, p: Str)
    requires ascii(p)
    ensures has_prefix(s, p) ==> bound_at(s, p.len() as int) == Some(p.len() as int) && s.subrange(p.len() as int, s.len() as int) =~= s.skip(p.len() as int)
{ if has_prefix(s, p) { let k = p.len() as int; assert forall|i: int| 0 <= i < k implies s[i] == p[i] by { assert(s.subrange(0, k)[i] == p[i]); } ax::lemma_off_eq(s, p, k); ax::lemma_ascii_off(p, k); ax::ax_off(s, k); } }
/// the pieces of a text cut at its first colon
pub proof fn lemma_mode(s: Str)
    ensures ({ let v = split_n(s, ':', 2); has_prefix(s, "rel:"@) <==> v.len() == 2 && v[0] == "rel"@ }), split_n(s, ':', 2).len() == 2 && has_prefix(s, "rel:"@) ==> split_n(s, ':', 2)[1] == s.skip(4), 1 <= split_n(s, ':', 2).len() <= 2
{
    reveal_with_fuel(split_n, 3); reveal_strlit("rel:"); reveal_strlit("rel");
    if has_prefix(s, "rel:"@) { assert forall|i: int| 0 <= i < 4 implies s[i] == "rel:"@[i] by { assert(s.subrange(0, 4)[i] == s[i]); } assert(s[3] == ':'); assert(has_char(s, ':')); assert(is_first(s, ':', 3)); }
    if has_char(s, ':') {
        lemma_first(s, ':');
        let i = choose|i: int| is_first(s, ':', i);
        assert(is_first(s, ':', i));
        let k = s.subrange(0, i);
        let r = s.subrange(i + 1, s.len() as int);
        assert(split_n(r, ':', 1) =~= seq![r]);
        assert(split_n(s, ':', 2) =~= seq![k, r]);
        if has_prefix(s, "rel:"@) { assert(i == 3); assert(k =~= "rel"@); assert(r =~= s.skip(4)); }
        if k == "rel"@ { assert("rel"@.len() == 3); assert(k.len() == i); assert("rel:"@ =~= "rel"@.push(':')); assert(i == 3); assert forall|j: int| 0 <= j < 4 implies s.subrange(0, 4)[j] == "rel:"@[j] by { if j < 3 { assert(k[j] == s[j]); } } assert(has_prefix(s, "rel:"@)); }
    }
}

// ---- the code ------------------------------------------------------------------------------------------
impl HexValue {
//@fn crates/symbolicator-service/src/utils/hex.rs <fmt::Display for HexValue>::fmt
//@sub? fmt :: Formatter < '_ > ==> Formatter
//@sub? fmt :: Result ==> Result < ( ) , FmtError >
//@ret r
//@spec
    ensures final(f).view() =~= old(f).view() + hex_text(*self)
//@end
//@fn crates/symbolicator-service/src/utils/hex.rs <Serialize for HexValue>::serialize
//@ret r
//@spec
    ensures r is Ok ==> S::wire(r->Ok_0) == Wire::Text(hex_text(*self))
//@end
//@fn crates/symbolicator-service/src/utils/hex.rs <FromStr for HexValue>::from_str res=map
//@sub? u64 :: from_str_radix ==> vp_from_str_radix
//@ret r
//@spec
    ensures (match r { Ok(v) => hex_of(s@) == Some(v), Err(_) => hex_of(s@) is None })
//@start
    proof { reveal_strlit("0x"); reveal_strlit("0X"); lemma_after(s@, "0x"@); lemma_after(s@, "0X"@); }
//@end
}
impl HexVisitor {
//@fn crates/symbolicator-service/src/utils/hex.rs <Deserialize for HexValue>::deserialize/<de::Visitor for HexVisitor>::visit_i64
//@sub? Self :: Value ==> HexValue
//@ret r
//@spec
    ensures r is Ok, r->Ok_0 == number(v)
//@start
    proof { assert(v < 0 ==> v as u64 == !((!v) as u64)) by (bit_vector); }
//@end
//@fn crates/symbolicator-service/src/utils/hex.rs <Deserialize for HexValue>::deserialize/<de::Visitor for HexVisitor>::visit_u64
//@sub? Self :: Value ==> HexValue
//@ret r
//@spec
    ensures r is Ok, r->Ok_0.0 == v
//@end
//@fn crates/symbolicator-service/src/utils/hex.rs <Deserialize for HexValue>::deserialize/<de::Visitor for HexVisitor>::visit_str
//@sub? Self :: Value ==> HexValue
//@ret r
//@spec
    ensures (match r { Ok(x) => hex_of(v@) == Some(x), Err(_) => hex_of(v@) is None })
//@end
}
impl AddrMode {
//@fn crates/symbolicator-native/src/interface.rs <fmt::Display for AddrMode>::fmt
//@sub? fmt :: Formatter < '_ > ==> Formatter
//@sub? fmt :: Result ==> Result < ( ) , FmtError >
//@ret r
//@spec
    ensures final(f).view() =~= old(f).view() + mode_text(*self)
//@end
//@fn crates/symbolicator-native/src/interface.rs <Serialize for AddrMode>::serialize
//@ret r
//@spec
    ensures r is Ok ==> S::wire(r->Ok_0) == Wire::Text(mode_text(*self))
//@end
//@fn crates/symbolicator-native/src/interface.rs <FromStr for AddrMode>::from_str
//@ret r
//@spec
    ensures (match r { Ok(v) => mode_of(s@) == Some(v), Err(_) => mode_of(s@) is None })
//@start
    proof { lemma_mode(s@); reveal_strlit("abs"); reveal_strlit("rel"); }
//@end
}
impl ObjectType {
//@fn crates/symbolicator-sources/src/types.rs <FromStr for ObjectType>::from_str
//@ret r
//@spec
    ensures r is Ok, r->Ok_0 == type_of(s@)
//@end
//@fn crates/symbolicator-sources/src/types.rs <fmt::Display for ObjectType>::fmt
//@sub? fmt :: Formatter ==> Formatter
//@sub? fmt :: Result ==> Result < ( ) , FmtError >
//@ret r
//@spec
    ensures final(f).view() =~= old(f).view() + type_text(*self)
//@end
}
impl FileType {
//@fn crates/symbolicator-sources/src/filetype.rs <AsRef for FileType>::as_ref
//@ret r
//@spec
    ensures r@ == file_text(*self)
//@end
}
}
fn main() {}
