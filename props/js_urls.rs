// ---- texts of addresses --------------------------------------------------------------------------------
/// the first place where p occurs
pub open spec fn first_in(s: Str, p: Str, i: int) -> bool { contains_at(s, p, i) && forall|j: int| 0 <= j < i ==> !contains_at(s, p, j) }
/// str::split_once
pub open spec fn cut(s: Str, p: Str) -> Option<(Str, Str)> { if has_substr(s, p) { let i = choose|i: int| first_in(s, p, i); Some((s.subrange(0, i), s.subrange(i + p.len(), s.len() as int))) } else { None } }
pub open spec fn cut_c(s: Str, c: char) -> Option<(Str, Str)> { if has_char(s, c) { let i = choose|i: int| is_first(s, c, i); Some((s.subrange(0, i), s.subrange(i + 1, s.len() as int))) } else { None } }
pub trait VpCuts { fn vp_split_str(&self, p: &str) -> Option<(&str, &str)>; fn vp_cut(&self, c: char) -> Option<(&str, &str)>; }
impl VpCuts for str {
    #[verifier::external_body]
    fn vp_split_str(&self, p: &str) -> (r: Option<(&str, &str)>)
        ensures r is Some == cut(self@, p@) is Some, r is Some ==> r->Some_0.0@ == cut(self@, p@)->Some_0.0 && r->Some_0.1@ == cut(self@, p@)->Some_0.1 { unimplemented!() }
    #[verifier::external_body]
    fn vp_cut(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures r is Some == cut_c(self@, c) is Some, r is Some ==> r->Some_0.0@ == cut_c(self@, c)->Some_0.0 && r->Some_0.1@ == cut_c(self@, c)->Some_0.1 { unimplemented!() }
}
/// the text from its first slash
pub open spec fn from_slash(s: Str) -> Str { if has_char(s, '/') { s.skip((choose|i: int| is_first(s, '/', i))) } else { s } }
/// the address without its origin (scheme and host) or leading tilde
pub open spec fn no_origin(s: Str) -> Str { if has_prefix(s, seq!['~']) { s.skip(1) } else { match cut(s, "://"@) { Some((_, rest)) => from_slash(rest), None => s } } }
pub proof fn lemma_only_first(s: Str, c: char, i: int) requires is_first(s, c, i) ensures (choose|k: int| is_first(s, c, k)) == i { let k = choose|k: int| is_first(s, c, k); assert(is_first(s, c, k)); if k < i { assert(s[k] != c); } else if i < k { assert(s[i] != c); } }
//@fn crates/symbolicator-js/src/utils.rs strip_hostname
//@sub? split_once ( "://" ) ==> vp_split_str ( "://" )
//@ret r
//@spec
    ensures r@ == no_origin(path@)
//@start
    proof { lemma_cut_facts(path@); if has_prefix(path@, seq!['~']) { assert(drop_prefix(path@, seq!['~']) =~= path@.skip(1)); } }
//@end
/// where the slash of a text is
pub proof fn lemma_cut_facts(s: Str)
    ensures match cut(s, "://"@) { Some((_, rest)) => has_char(rest, '/') ==> is_first(rest, '/', choose|i: int| is_first(rest, '/', i)) && bound_at(rest, byte_off(rest, choose|i: int| is_first(rest, '/', i))) == Some(choose|i: int| is_first(rest, '/', i))
            && forall|i: int| is_first(rest, '/', i) ==> i == (choose|i: int| is_first(rest, '/', i)), None => true }
{
    match cut(s, "://"@) { Some((_, rest)) => { if has_char(rest, '/') {
        lemma_first(rest, '/'); let k = choose|i: int| is_first(rest, '/', i); assert(is_first(rest, '/', k)); ax::ax_off(rest, k);
        assert forall|i: int| is_first(rest, '/', i) implies i == k by { lemma_only_first(rest, '/', i); }
    } } None => {} }
}
