// ---- dependencies (assumed) -------------------------------------------------------------------------
/// Arc<str> is its text
#[verifier::external_body] pub struct ArcStr { s: u8 }
impl ArcStr {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body] pub fn vp_str(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn vp_is(&self, o: &str) -> (r: bool) ensures r == (self.view() =~= o@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_clone(&self) -> (r: ArcStr) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn vp_from(s: String) -> (r: ArcStr) ensures r.view() == s@ { unimplemented!() }
}
/// {:?} of a text: quoted, on one line, different for different texts
pub uninterp spec fn dbg(s: Str) -> Str;
pub proof fn ax_dbg(s: Str) ensures dbg(s).len() >= 2, dbg(s)[0] == '"', !has_char(dbg(s), '\n') { admit(); }
pub proof fn ax_dbg_inj(s: Str, t: Str) ensures dbg(s) == dbg(t) ==> s == t { admit(); }
pub trait VpDbg { spec fn dv(&self) -> Str; fn vp_push_dbg(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + dbg(self.dv()); }
impl VpDbg for str { open spec fn dv(&self) -> Str { self@ } #[verifier::external_body] fn vp_push_dbg(&self, o: &mut String) { unimplemented!() } }
impl VpDbg for ArcStr { open spec fn dv(&self) -> Str { self.view() } #[verifier::external_body] fn vp_push_dbg(&self, o: &mut String) { unimplemented!() } }
/// two lower-case hexadecimal digits
pub open spec fn hexd(n: int) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' } }
pub proof fn ax_lhex2(n: int) requires 0 <= n < 256 ensures lhex2(n) == seq![hexd(n / 16), hexd(n % 16)] { admit(); }
/// decimal digits
pub proof fn ax_dec(n: int) requires 0 <= n ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9' { admit(); }
pub proof fn ax_dec_inj(n: int, m: int) requires 0 <= n, 0 <= m ensures dec(n) == dec(m) ==> n == m { admit(); }
pub uninterp spec fn sha256(s: Str) -> Seq<u8>;
pub struct Sha256 {}
impl Sha256 { #[verifier::external_body] pub fn digest(s: &String) -> (r: [u8; 32]) ensures r@ == sha256(s@) { unimplemented!() } }
pub trait VpBytes { fn slice_range(&self, a: usize, b: usize) -> Vec<u8>; fn slice_from(&self, a: usize) -> Vec<u8>; }
impl VpBytes for [u8; 32] {
    #[verifier::external_body] fn slice_range(&self, a: usize, b: usize) -> (r: Vec<u8>) ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] fn slice_from(&self, a: usize) -> (r: Vec<u8>) ensures r@ == self@.subrange(a as int, 32) { unimplemented!() }
}
pub struct VpInfallible {}
#[verifier::external_body] pub fn vp_opaque_res() -> Result<(), VpFmtError> { unimplemented!() }

#[derive(Clone, Copy)]
//@item crates/symbolicator-service/src/caches/versions.rs CachePathFormat
#[derive(Clone, Copy)]
//@item crates/symbolicator-service/src/caches/versions.rs CacheVersion
//@item crates/symbolicator-service/src/types.rs Scope
//@isub Arc<str> ==> ArcStr
//@item crates/symbolicator-service/src/caching/cache_key.rs CacheKey
//@isub Arc<str> ==> ArcStr
//@item crates/symbolicator-service/src/caching/cache_key.rs CacheKeyBuilder

// ---- the path is the version, then the digest, in hexadecimal, fanned out -----------------------------
pub open spec fn hexs(b: Seq<u8>) -> Str decreases b.len() { if b.len() == 0 { seq![] } else { hexs(b.drop_last()) + lhex2(b.last() as int) } }
pub open spec fn path_of(v: CacheVersion, h: Seq<u8>) -> Str {
    match v.path_format {
        CachePathFormat::V1 => "v"@ + dec(v.number as int) + "/"@ + lhex2(h[0] as int) + "/"@ + hexs(h.subrange(1, 4)) + "/"@ + hexs(h.subrange(4, 32)),
        CachePathFormat::V2 => "v"@ + dec(v.number as int) + "/"@ + lhex2(h[0] as int) + "/"@ + lhex2(h[1] as int) + "/"@ + hexs(h.subrange(2, 32)),
    }
}
proof fn lemma_hexs_step(v: Seq<u8>, i: int) requires 0 <= i < v.len() ensures hexs(v.take(i + 1)) == hexs(v.take(i)) + lhex2(v[i] as int)
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
impl CacheKey {
//@fn crates/symbolicator-service/src/caching/cache_key.rs CacheKey::cache_path while=0,1,2
//@ret r
//@spec
    ensures r@ =~= path_of(version, self.hash@)
//@start
    assert(hexs(Seq::<u8>::empty()) =~= Seq::<char>::empty());
//@loop 0
    invariant vp_v0@ == self.hash@.subrange(1, 4), vp_i0 <= vp_v0@.len(), vp_v0@.take(vp_v0@.len() as int) =~= vp_v0@, path@ =~= "v"@ + dec(number as int) + "/"@ + lhex2(self.hash@[0] as int) + "/"@ + hexs(vp_v0@.take(vp_i0 as int))
    decreases vp_v0@.len() - vp_i0
//@loop 1
    invariant vp_v1@ == self.hash@.subrange(4, 32), vp_i1 <= vp_v1@.len(), vp_v1@.take(vp_v1@.len() as int) =~= vp_v1@, path@ =~= "v"@ + dec(number as int) + "/"@ + lhex2(self.hash@[0] as int) + "/"@ + hexs(self.hash@.subrange(1, 4)) + "/"@ + hexs(vp_v1@.take(vp_i1 as int))
    decreases vp_v1@.len() - vp_i1
//@loop 2
    invariant vp_v2@ == self.hash@.subrange(2, 32), vp_i2 <= vp_v2@.len(), vp_v2@.take(vp_v2@.len() as int) =~= vp_v2@, path@ =~= "v"@ + dec(number as int) + "/"@ + lhex2(self.hash@[0] as int) + "/"@ + lhex2(self.hash@[1] as int) + "/"@ + hexs(vp_v2@.take(vp_i2 as int))
    decreases vp_v2@.len() - vp_i2
//@before? vp_i0 += 1
    proof { lemma_hexs_step(vp_v0@, vp_i0 as int); }
//@before? vp_i1 += 1
    proof { lemma_hexs_step(vp_v1@, vp_i1 as int); }
//@before? vp_i2 += 1
    proof { lemma_hexs_step(vp_v2@, vp_i2 as int); }
//@end
}

