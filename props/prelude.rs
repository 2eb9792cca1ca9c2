// ---------------------------------------------------------------------------------------------
// Prelude: assumed contracts on std (R4).  Everything external_body / uninterp here is trusted and
// is listed in the evidence by the mechanical scan of vp/verus.py.
// ---------------------------------------------------------------------------------------------
pub mod base {
use vstd::prelude::*;
pub type Str = Seq<char>;

pub open spec fn has_prefix(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn has_suffix(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub open spec fn drop_prefix(s: Str, p: Str) -> Str { s.subrange(p.len() as int, s.len() as int) }
pub open spec fn drop_suffix(s: Str, p: Str) -> Str { s.subrange(0, s.len() - p.len()) }
pub open spec fn has_char(s: Str, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
pub open spec fn contains_at(s: Str, p: Str, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
pub open spec fn has_substr(s: Str, p: Str) -> bool { exists|i: int| contains_at(s, p, i) }
pub open spec fn is_last(s: Str, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| i < j < s.len() ==> s[j] != c }
pub open spec fn is_first(s: Str, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c }
pub open spec fn cut_at_last(s: Str, c: char) -> Str { if has_char(s, c) { s.subrange(0, (choose|i: int| is_last(s, c, i))) } else { s } }

/// Unicode case mapping of std (uninterpreted; to_lowercase / to_uppercase)
pub uninterp spec fn s_lower(s: Str) -> Str;
pub uninterp spec fn s_upper(s: Str) -> Str;
/// ASCII case mapping
pub open spec fn a_lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn a_upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8) - 32) as u8 as char } else { c } }
pub open spec fn a_lower(s: Str) -> Str { Seq::new(s.len(), |i: int| a_lower_c(s[i])) }
pub open spec fn a_upper(s: Str) -> Str { Seq::new(s.len(), |i: int| a_upper_c(s[i])) }
pub open spec fn ascii(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
/// UTF-8 encoding: bytes per character, byte offset of the k-th character, length, and the character
/// index of a byte offset that is a character boundary (all defined, nothing assumed)
pub open spec fn char_len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
#[verifier::opaque]
pub open spec fn byte_off(s: Str, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { byte_off(s, k - 1) + char_len(s[k - 1]) } }
pub open spec fn utf8_len(s: Str) -> int { byte_off(s, s.len() as int) }
pub open spec fn is_bound(s: Str, n: int, k: int) -> bool { 0 <= k <= s.len() && byte_off(s, k) == n }
#[verifier::opaque]
pub open spec fn bound_at(s: Str, n: int) -> Option<int> { if exists|k: int| is_bound(s, n, k) { Some(choose|k: int| is_bound(s, n, k)) } else { None } }

/// minimal lower / upper case hexadecimal rendering ({:x} / {:X})
pub uninterp spec fn lhex(n: int) -> Str;
pub uninterp spec fn uhex(n: int) -> Str;
pub uninterp spec fn lhex2(n: int) -> Str;
pub uninterp spec fn uhex2(n: int) -> Str;
pub uninterp spec fn dec(n: int) -> Str;

}
pub use base::*;

pub mod ax {
    use vstd::prelude::*; use super::base::*;
    #[verifier::external_body]
    pub broadcast proof fn ax_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b {}
    pub proof fn lemma_mono(s: Str, a: int, b: int)
        requires 0 <= a <= b
        ensures byte_off(s, a) + (b - a) <= byte_off(s, b), b > a && (s[b - 1] as u32) < 128 ==> byte_off(s, b) == byte_off(s, b - 1) + 1
        decreases b - a
    { reveal_with_fuel(byte_off, 2); if a < b { lemma_mono(s, a, b - 1); } }
    pub proof fn lemma_ascii_off(s: Str, k: int)
        requires ascii(s), 0 <= k <= s.len()
        ensures byte_off(s, k) == k
        decreases k
    { reveal_with_fuel(byte_off, 2); if k > 0 { lemma_ascii_off(s, k - 1); assert((s[k - 1] as u32) < 128); } }
    pub broadcast proof fn ax_bound(s: Str, n: int)
        ensures (match #[trigger] bound_at(s, n) { Some(k) => 0 <= k <= s.len() && 0 <= n && (k <= n) && byte_off(s, k) == n && (n == 0 <==> k == 0), None => true }),
                ascii(s) ==> bound_at(s, n) == (if 0 <= n <= s.len() { Some(n) } else { None::<int> })
    {
        reveal(bound_at);
        assert(byte_off(s, 0) == 0) by { reveal(byte_off); } if let Some(k) = bound_at(s, n) { lemma_mono(s, 0, k); }
        if ascii(s) {
            if 0 <= n <= s.len() { lemma_ascii_off(s, n); assert(is_bound(s, n, n)); }
            if let Some(k) = bound_at(s, n) { lemma_ascii_off(s, k); }
        }
    }
    pub broadcast proof fn ax_off(s: Str, k: int)
        requires 0 <= k <= s.len()
        ensures bound_at(s, #[trigger] byte_off(s, k)) == Some(k), byte_off(s, k) >= k
    {
        reveal(bound_at);
        assert(byte_off(s, 0) == 0) by { reveal(byte_off); } lemma_mono(s, 0, k);
        assert(is_bound(s, byte_off(s, k), k));
        let j = bound_at(s, byte_off(s, k)).unwrap();
        if j < k { lemma_mono(s, j, k); } else { lemma_mono(s, k, j); }
    }
    pub broadcast proof fn ax_utf8(s: Str)
        ensures #[trigger] utf8_len(s) >= s.len(), ascii(s) ==> utf8_len(s) == s.len(), (utf8_len(s) == 0) == (s.len() == 0)
    { assert(byte_off(s, 0) == 0) by { reveal(byte_off); } lemma_mono(s, 0, s.len() as int); if ascii(s) { lemma_ascii_off(s, s.len() as int); } }
    pub proof fn lemma_off_cat(s: Str, t: Str, k: int)
        requires 0 <= k <= s.len() + t.len()
        ensures byte_off(s + t, k) == (if k <= s.len() { byte_off(s, k) } else { utf8_len(s) + byte_off(t, k - s.len()) })
        decreases k
    { reveal_with_fuel(byte_off, 2);
        if k > 0 {
            lemma_off_cat(s, t, k - 1);
            if k <= s.len() { assert((s + t)[k - 1] == s[k - 1]); }
            else { assert((s + t)[k - 1] == t[k - 1 - s.len()]); if k == s.len() + 1 { assert(byte_off(t, 0) == 0); assert(byte_off(t, 1) == byte_off(t, 0) + char_len(t[0])); } }
        }
    }
    pub proof fn lemma_off_eq(s: Str, t: Str, k: int)
        requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
        ensures byte_off(s, k) == byte_off(t, k)
        decreases k
    { reveal_with_fuel(byte_off, 2); if k > 0 { lemma_off_eq(s, t, k - 1); } }
    /// cutting an ascii tail off
    pub proof fn lemma_cut_tail(s: Str, t: Str)
        requires ascii(t)
        ensures utf8_len(s + t) == utf8_len(s) + t.len(), bound_at(s + t, utf8_len(s)) == Some(s.len() as int), (s + t).subrange(0, s.len() as int) =~= s
    {
        lemma_off_cat(s, t, (s + t).len() as int);
        lemma_off_cat(s, t, s.len() as int);
        lemma_ascii_off(t, t.len() as int);
        ax_off(s + t, s.len() as int);
    }
    pub broadcast proof fn lemma_cut_all(s: Str, t: Str)
        ensures ascii(t) ==> #[trigger] utf8_len(s + t) == utf8_len(s) + t.len() && bound_at(s + t, utf8_len(s)) == Some(s.len() as int) && (s + t).subrange(0, s.len() as int) =~= s
    { if ascii(t) { lemma_cut_tail(s, t); } }
    pub broadcast proof fn lemma_sfx1(s: Str, c: char)
        ensures #[trigger] has_suffix(s, seq![c]) == (s.len() > 0 && s[s.len() - 1] == c)
    { if s.len() > 0 { assert(s.subrange(s.len() - 1, s.len() as int)[0] == s[s.len() - 1]); if s[s.len() - 1] == c { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![c]); } else { assert(seq![c][0] == c); } } }
    pub broadcast proof fn lemma_pfx1(s: Str, c: char)
        ensures #[trigger] has_prefix(s, seq![c]) == (s.len() > 0 && s[0] == c)
    { if s.len() > 0 { assert(s.subrange(0, 1)[0] == s[0]); if s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } else { assert(seq![c][0] == c); } } }
    /// the last occurrence is unique
    pub broadcast proof fn lemma_is_last(s: Str, c: char, i: int)
        requires #[trigger] is_last(s, c, i)
        ensures has_char(s, c), cut_at_last(s, c) == s.subrange(0, i)
    {
        let j = choose|j: int| is_last(s, c, j);
        if j < i { assert(s[i] != c); } else if i < j { assert(s[j] != c); }
    }
    /// a two-byte prefix that ends in '/' or '.' consists of two characters
    pub broadcast proof fn lemma_two(s: Str)
        ensures (match #[trigger] bound_at(s, 2) { Some(k) => (s[k - 1] == '/' || s[k - 1] == '.') ==> k == 2 && bound_at(s, 1) == Some(1int) && bound_at(s.subrange(0, k), 1) == Some(1int), None => true })
    { reveal_with_fuel(byte_off, 2);
        ax_bound(s, 2);
        if let Some(k) = bound_at(s, 2) {
            if s[k - 1] == '/' || s[k - 1] == '.' {
                assert(byte_off(s, k) == byte_off(s, k - 1) + 1);
                ax_off(s, k - 1);
                lemma_mono(s, 0, k - 1);
                assert(byte_off(s, k - 1) == 1);
                ax_bound(s, 1);
                let p = s.subrange(0, k);
                lemma_off_eq(p, s, k - 1);
                ax_off(p, k - 1);
            }
        }
    }
}
broadcast use {ax::ax_str_ext, ax::ax_bound, ax::ax_off, ax::ax_utf8, ax::lemma_is_last, ax::lemma_sfx1, ax::lemma_pfx1};

pub proof fn lemma_last(s: Str, c: char)
    requires has_char(s, c)
    ensures exists|i: int| is_last(s, c, i)
    decreases s.len()
{
    if s.last() == c { assert(is_last(s, c, s.len() - 1)); }
    else {
        let t = s.drop_last();
        let k = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(t[k] == c);
        lemma_last(t, c);
        let i = choose|i: int| is_last(t, c, i);
        assert forall|j: int| i < j < s.len() implies s[j] != c by { if j < s.len() - 1 { assert(t[j] != c); } }
        assert(is_last(s, c, i));
    }
}
pub proof fn lemma_first(s: Str, c: char)
    requires has_char(s, c)
    ensures exists|i: int| is_first(s, c, i)
    decreases s.len()
{
    if s[0] == c { assert(is_first(s, c, 0)); }
    else {
        let t = s.subrange(1, s.len() as int);
        let k = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(t[k - 1] == c);
        lemma_first(t, c);
        let i = choose|i: int| is_first(t, c, i);
        assert(is_first(s, c, i + 1)) by { assert forall|j: int| 0 <= j < i + 1 implies s[j] != c by { if j > 0 { assert(t[j - 1] != c); } } }
    }
}

/// text patterns accepted by the str methods
pub trait VpPat { spec fn pv(&self) -> Str; }
impl VpPat for char { open spec fn pv(&self) -> Str { seq![*self] } }
impl<'a> VpPat for &'a str { open spec fn pv(&self) -> Str { self@ } }
impl<'a> VpPat for &'a String { open spec fn pv(&self) -> Str { self@ } }

pub trait VpStr {
    fn vp_to_lowercase(&self) -> String;
    fn vp_to_uppercase(&self) -> String;
    fn vp_to_ascii_lowercase(&self) -> String;
    fn vp_to_ascii_uppercase(&self) -> String;
    fn vp_eq_ignore_ascii_case(&self, o: &str) -> bool;
    fn vp_starts_with<P: VpPat>(&self, p: P) -> bool;
    fn vp_ends_with<P: VpPat>(&self, p: P) -> bool;
    fn vp_contains<P: VpPat>(&self, p: P) -> bool;
    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> Option<&str>;
    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> Option<&str>;
    fn vp_split_once(&self, p: char) -> Option<(&str, &str)>;
    fn vp_rsplit_once(&self, p: char) -> Option<(&str, &str)>;
    fn vp_rfind(&self, p: char) -> Option<usize>;
    fn vp_find(&self, p: char) -> Option<usize>;
    fn vp_to_string(&self) -> String;
    fn vp_trim(&self) -> &str;
}
pub uninterp spec fn s_trim(s: Str) -> Str;
impl VpStr for str {
    #[verifier::external_body]
    fn vp_to_lowercase(&self) -> (r: String) ensures r@ == s_lower(self@) { self.to_lowercase() }
    #[verifier::external_body]
    fn vp_to_uppercase(&self) -> (r: String) ensures r@ == s_upper(self@) { self.to_uppercase() }
    #[verifier::external_body]
    fn vp_to_ascii_lowercase(&self) -> (r: String) ensures r@ == a_lower(self@) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vp_to_ascii_uppercase(&self) -> (r: String) ensures r@ == a_upper(self@) { self.to_ascii_uppercase() }
    #[verifier::external_body]
    fn vp_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (a_lower(self@) =~= a_lower(o@)) { self.eq_ignore_ascii_case(o) }
    #[verifier::external_body]
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == has_prefix(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == has_suffix(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool) ensures r == has_substr(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures r.is_some() == has_prefix(self@, p.pv()), r.is_some() ==> r.unwrap()@ =~= drop_prefix(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures r.is_some() == has_suffix(self@, p.pv()), r.is_some() ==> r.unwrap()@ =~= drop_suffix(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_split_once(&self, p: char) -> (r: Option<(&str, &str)>)
        ensures r.is_some() == has_char(self@, p),
            r.is_some() ==> is_first(self@, p, r.unwrap().0@.len() as int) && self@ =~= r.unwrap().0@ + seq![p] + r.unwrap().1@ { self.split_once(p) }
    #[verifier::external_body]
    fn vp_rsplit_once(&self, p: char) -> (r: Option<(&str, &str)>)
        ensures r.is_some() == has_char(self@, p),
            r.is_some() ==> is_last(self@, p, r.unwrap().0@.len() as int) && self@ =~= r.unwrap().0@ + seq![p] + r.unwrap().1@ { self.rsplit_once(p) }
    #[verifier::external_body]
    fn vp_rfind(&self, p: char) -> (r: Option<usize>)
        ensures r.is_some() == has_char(self@, p),
            r.is_some() ==> exists|i: int| is_last(self@, p, i) && #[trigger] byte_off(self@, i) == r.unwrap() { self.rfind(p) }
    #[verifier::external_body]
    fn vp_find(&self, p: char) -> (r: Option<usize>)
        ensures r.is_some() == has_char(self@, p),
            r.is_some() ==> exists|i: int| is_first(self@, p, i) && #[trigger] byte_off(self@, i) == r.unwrap() { self.find(p) }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) ensures r@ == self@ { self.to_string() }
    #[verifier::external_body]
    fn vp_trim(&self) -> (r: &str) ensures r@ == s_trim(self@) { self.trim() }
}

pub trait VpString {
    spec fn sv(&self) -> Str;
    /// panics unless n is beyond the end or on a character boundary
    fn vp_truncate(&mut self, n: usize)
        requires n > utf8_len(old(self).sv()) || bound_at(old(self).sv(), n as int).is_some();
    fn vp_pop(&mut self) -> Option<char>;
    fn vp_make_ascii_lowercase(&mut self);
    fn vp_make_ascii_uppercase(&mut self);
    fn vp_write_fmt(&mut self, s: &String) -> Result<(), VpFmtError>;
}
#[derive(Debug)] pub struct VpFmtError {}
impl VpString for String {
    open spec fn sv(&self) -> Str { self@ }
    #[verifier::external_body]
    fn vp_truncate(&mut self, n: usize)
        ensures final(self)@ =~= (match bound_at(old(self)@, n as int) { Some(k) => old(self)@.subrange(0, k), None => old(self)@ }) { self.truncate(n) }
    #[verifier::external_body]
    fn vp_pop(&mut self) -> (r: Option<char>)
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap() == old(self)@.last(),
            final(self)@ =~= (if old(self)@.len() > 0 { old(self)@.drop_last() } else { old(self)@ }) { self.pop() }
    #[verifier::external_body]
    fn vp_make_ascii_lowercase(&mut self) ensures final(self)@ =~= a_lower(old(self)@) { self.make_ascii_lowercase() }
    #[verifier::external_body]
    fn vp_make_ascii_uppercase(&mut self) ensures final(self)@ =~= a_upper(old(self)@) { self.make_ascii_uppercase() }
    #[verifier::external_body]
    fn vp_write_fmt(&mut self, s: &String) -> (r: Result<(), VpFmtError>) ensures r.is_ok(), final(self)@ =~= old(self)@ + s@ { self.push_str(s); Ok(()) }
}

#[verifier::external_body]
pub fn vp_new_string() -> (r: String) ensures r@ =~= Seq::<char>::empty() { String::new() }

/// Display: what `{}` appends (R3)
pub trait VpDisp {
    spec fn disp(&self) -> Str;
    fn vp_push(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.disp();
}
impl VpDisp for str { open spec fn disp(&self) -> Str { self@ } #[verifier::external_body] fn vp_push(&self, o: &mut String) { o.push_str(self) } }
impl VpDisp for String { open spec fn disp(&self) -> Str { self@ } #[verifier::external_body] fn vp_push(&self, o: &mut String) { o.push_str(self) } }
impl VpDisp for char { open spec fn disp(&self) -> Str { seq![*self] } #[verifier::external_body] fn vp_push(&self, o: &mut String) { o.push(*self) } }
impl VpDisp for u8 { open spec fn disp(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl VpDisp for u16 { open spec fn disp(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl VpDisp for u32 { open spec fn disp(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl VpDisp for u64 { open spec fn disp(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
impl VpDisp for usize { open spec fn disp(&self) -> Str { dec(*self as int) } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }
/// hexadecimal Display variants
pub trait VpHex {
    spec fn hx(&self) -> Str;
    spec fn hux(&self) -> Str;
    fn vp_push_lx(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.hx();
    fn vp_push_ux(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.hux();
}
impl VpHex for u32 {
    open spec fn hx(&self) -> Str { lhex(*self as int) }
    open spec fn hux(&self) -> Str { uhex(*self as int) }
    #[verifier::external_body] fn vp_push_lx(&self, o: &mut String) { unimplemented!() }
    #[verifier::external_body] fn vp_push_ux(&self, o: &mut String) { unimplemented!() }
}
impl VpHex for u64 {
    open spec fn hx(&self) -> Str { lhex(*self as int) }
    open spec fn hux(&self) -> Str { uhex(*self as int) }
    #[verifier::external_body] fn vp_push_lx(&self, o: &mut String) { unimplemented!() }
    #[verifier::external_body] fn vp_push_ux(&self, o: &mut String) { unimplemented!() }
}
pub trait VpHex2 {
    spec fn h2(&self) -> Str;
    spec fn hu2(&self) -> Str;
    fn vp_push_02lx(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.h2();
    fn vp_push_02ux(&self, o: &mut String) ensures final(o)@ =~= old(o)@ + self.hu2();
}
impl VpHex2 for u8 {
    open spec fn h2(&self) -> Str { lhex2(*self as int) }
    open spec fn hu2(&self) -> Str { uhex2(*self as int) }
    #[verifier::external_body] fn vp_push_02lx(&self, o: &mut String) { unimplemented!() }
    #[verifier::external_body] fn vp_push_02ux(&self, o: &mut String) { unimplemented!() }
}

/// Cow<'_, str> (R7): same two variants, derefs to str
pub enum VpCow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> VpCow<'a> {
    pub open spec fn view(&self) -> Str { match self { VpCow::Borrowed(s) => s@, VpCow::Owned(s) => s@ } }
    #[verifier::external_body]
    pub fn get_to(&self, n: usize) -> (r: Option<&str>)
        ensures r.is_some() == bound_at(self.view(), n as int).is_some(), r.is_some() ==> r.unwrap()@ =~= self.view().subrange(0, bound_at(self.view(), n as int).unwrap()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_from(&self, n: usize) -> (r: Option<&str>)
        ensures r.is_some() == bound_at(self.view(), n as int).is_some(), r.is_some() ==> r.unwrap()@ =~= self.view().subrange(bound_at(self.view(), n as int).unwrap(), self.view().len() as int) { unimplemented!() }
}
impl<'a> VpDisp for VpCow<'a> { open spec fn disp(&self) -> Str { self.view() } #[verifier::external_body] fn vp_push(&self, o: &mut String) { unimplemented!() } }

/// str::get(..n) / get(n..) / [..n] / [n..]
pub trait VpSlice {
    spec fn sl(&self) -> Str;
    fn get_to(&self, n: usize) -> (r: Option<&str>)
        ensures r.is_some() == bound_at(self.sl(), n as int).is_some(), r.is_some() ==> r.unwrap()@ =~= self.sl().subrange(0, bound_at(self.sl(), n as int).unwrap());
    fn get_from(&self, n: usize) -> (r: Option<&str>)
        ensures r.is_some() == bound_at(self.sl(), n as int).is_some(), r.is_some() ==> r.unwrap()@ =~= self.sl().subrange(bound_at(self.sl(), n as int).unwrap(), self.sl().len() as int);
    /// panics unless n is a character boundary within the text
    fn slice_to(&self, n: usize) -> (r: &str)
        requires bound_at(self.sl(), n as int).is_some()
        ensures r@ =~= self.sl().subrange(0, bound_at(self.sl(), n as int).unwrap());
    fn slice_from(&self, n: usize) -> (r: &str)
        requires bound_at(self.sl(), n as int).is_some()
        ensures r@ =~= self.sl().subrange(bound_at(self.sl(), n as int).unwrap(), self.sl().len() as int);
    fn vp_len(&self) -> (r: usize) ensures r == utf8_len(self.sl());
    fn vp_is_empty(&self) -> (r: bool) ensures r == (self.sl().len() == 0);
}
impl VpSlice for str {
    open spec fn sl(&self) -> Str { self@ }
    #[verifier::external_body] fn get_to(&self, n: usize) -> Option<&str> { self.get(..n) }
    #[verifier::external_body] fn get_from(&self, n: usize) -> Option<&str> { self.get(n..) }
    #[verifier::external_body] fn slice_to(&self, n: usize) -> &str { &self[..n] }
    #[verifier::external_body] fn slice_from(&self, n: usize) -> &str { &self[n..] }
    #[verifier::external_body] fn vp_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn vp_is_empty(&self) -> bool { self.is_empty() }
}
#[verifier::external_body]
pub fn vp_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ =~= seq![a] { vec![a] }
#[verifier::external_body]
pub fn vp_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ =~= seq![a, b] { vec![a, b] }
#[verifier::external_body]
pub fn vp_extend<T>(v: &mut Vec<T>, mut o: Vec<T>) ensures final(v)@ =~= old(v)@ + o@ { v.append(&mut o) }
pub assume_specification [ std::string::String::with_capacity ] (n: usize) -> (r: String) ensures r@ =~= Seq::<char>::empty();

/// membership in a Vec (elements with structural equality)
pub trait VpHas<T> { spec fn els(&self) -> Seq<T>; fn vp_contains(&self, x: &T) -> (r: bool) ensures r == self.els().contains(*x); }
impl<T: PartialEq> VpHas<T> for Vec<T> { open spec fn els(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_contains(&self, x: &T) -> bool { self.contains(x) } }
/// character substitution (str::replace with one-character patterns)
pub open spec fn subst(s: Str, a: char, b: char) -> Str { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
#[verifier::external_body]
pub fn vp_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ =~= old(v)@, final(v)@ =~= Seq::<T>::empty() { std::mem::take(v) }
/// Vec::pop under the same name as String::pop
pub trait VpPop<T> { spec fn pe(&self) -> Seq<T>; fn vp_pop(&mut self) -> (r: Option<T>)
    ensures r.is_some() == (old(self).pe().len() > 0), r.is_some() ==> r.unwrap() == old(self).pe().last(),
        final(self).pe() =~= (if old(self).pe().len() > 0 { old(self).pe().drop_last() } else { old(self).pe() }); }
impl<T> VpPop<T> for Vec<T> { open spec fn pe(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_pop(&mut self) -> Option<T> { self.pop() } }

/// pieces of a text between occurrences of a character (str::split)
pub open spec fn split_c(s: Str, c: char) -> Seq<Str>
    decreases s.len()
{
    if has_char(s, c) {
        let i = choose|i: int| is_first(s, c, i);
        if is_first(s, c, i) { seq![s.subrange(0, i)] + split_c(s.subrange(i + 1, s.len() as int), c) } else { seq![s] }
    } else { seq![s] }
}
/// str::split_terminator: a final empty piece is dropped
pub open spec fn split_term(s: Str, c: char) -> Seq<Str> { let p = split_c(s, c); if p.last().len() == 0 { p.drop_last() } else { p } }
pub proof fn lemma_split_cons(l: Str, c: char, rest: Str)
    requires !has_char(l, c)
    ensures split_c(l + seq![c] + rest, c) =~= seq![l] + split_c(rest, c)
{
    let s = l + seq![c] + rest;
    assert(s[l.len() as int] == c);
    assert forall|j: int| 0 <= j < l.len() implies s[j] != c by { assert(s[j] == l[j]); if l[j] == c { assert(has_char(l, c)); } }
    assert(is_first(s, c, l.len() as int));
    let i = choose|i: int| is_first(s, c, i);
    assert(is_first(s, c, i));
    if i < l.len() { assert(s[i] != c); } else if l.len() < i { assert(s[l.len() as int] != c); }
    assert(s.subrange(0, i) =~= l);
    assert(s.subrange(i + 1, s.len() as int) =~= rest);
}
pub proof fn lemma_split_nonempty(s: Str, c: char)
    ensures split_c(s, c).len() >= 1
{ reveal_with_fuel(split_c, 2); }
/// the pieces do not contain the separator
pub proof fn lemma_split_free(s: Str, c: char)
    ensures forall|k: int| 0 <= k < split_c(s, c).len() ==> !has_char(#[trigger] split_c(s, c)[k], c)
    decreases s.len()
{
    if has_char(s, c) {
        lemma_first(s, c);
        let i = choose|i: int| is_first(s, c, i);
        let r = s.subrange(i + 1, s.len() as int);
        lemma_split_free(r, c);
        let p = s.subrange(0, i);
        assert(!has_char(p, c)) by { if has_char(p, c) { let k = choose|k: int| 0 <= k < p.len() && p[k] == c; assert(s[k] == c); } }
        assert forall|k: int| 0 <= k < split_c(s, c).len() implies !has_char(#[trigger] split_c(s, c)[k], c) by { if k > 0 { assert(split_c(s, c)[k] == split_c(r, c)[k - 1]); } }
    }
}
/// remaining pieces of a split
pub struct VpSplit<'a> { x: &'a str }
impl<'a> VpSplit<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Str>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures r.is_some() == (old(self).rest().len() > 0), r.is_some() ==> r.unwrap()@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r.is_none() ==> final(self).rest() == old(self).rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<&'a str>)
        ensures r.is_some() == (old(self).rest().len() > n), r.is_some() ==> r.unwrap()@ == old(self).rest()[n as int] && final(self).rest() == old(self).rest().skip(n + 1), r.is_none() ==> final(self).rest() == Seq::<Str>::empty() { unimplemented!() }
}
pub trait VpSplits {
    fn vp_split(&self, c: char) -> VpSplit<'_>;
    fn vp_split_terminator(&self, c: char) -> Vec<&str>;
}
pub open spec fn rview(v: Seq<&str>) -> Seq<Str> { Seq::new(v.len(), |k: int| v[k]@) }
impl VpSplits for str {
    #[verifier::external_body]
    fn vp_split(&self, c: char) -> (r: VpSplit<'_>) ensures r.rest() == split_c(self@, c) { unimplemented!() }
    #[verifier::external_body]
    fn vp_split_terminator(&self, c: char) -> (r: Vec<&str>) ensures rview(r@) =~= split_term(self@, c) { unimplemented!() }
}
/// str::splitn
pub open spec fn split_n(s: Str, c: char, n: int) -> Seq<Str>
    decreases n
{
    if n <= 0 { Seq::empty() } else if n == 1 || !has_char(s, c) { seq![s] } else {
        let i = choose|i: int| is_first(s, c, i);
        seq![s.subrange(0, i)] + split_n(s.subrange(i + 1, s.len() as int), c, n - 1)
    }
}
pub trait VpSplitN { fn vp_splitn(&self, n: usize, c: char) -> VpSplit<'_>; }
impl VpSplitN for str {
    #[verifier::external_body]
    fn vp_splitn(&self, n: usize, c: char) -> (r: VpSplit<'_>) ensures r.rest() == split_n(self@, c, n as int) { unimplemented!() }
}
/// Unicode lower-casing maps a text onto an ASCII prefix only if the text has that prefix in ASCII letters
/// (the only non-ASCII characters with an ASCII letter first in their lower-case form are U+212A -> k and U+0130 -> i U+0307)
pub open spec fn fold_safe(p: Str) -> bool { p.len() > 0 && ascii(p) && p.last() != 'i' && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] != 'k' }
#[verifier::external_body]
pub proof fn ax_lower_prefix(s: Str, p: Str)
    ensures fold_safe(p) && has_prefix(s_lower(s), p) ==> has_prefix(a_lower(s), p) && ascii(s.subrange(0, p.len() as int)), {}

pub assume_specification<'x> [ <String as core::cmp::PartialEq<&str>>::eq ] (x: &String, y: &&str) -> (r: bool) ensures r == (x@ == y@);
pub assume_specification [ <String as core::cmp::PartialEq<str>>::eq ] (x: &String, y: &str) -> (r: bool) ensures r == (x@ == y@);
/// the i-th element of a Vec that is consumed in order (R18)
#[verifier::external_body]
pub fn vp_elem<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
