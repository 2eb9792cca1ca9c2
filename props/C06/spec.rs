use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include ../prelude.rs
//@include ../ids.rs
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayoutType derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs FilenameCasing derive=Structural, PartialEq, Eq, Clone, Copy
//@item crates/symbolicator-sources/src/sources.rs DirectoryLayout derive=Structural, PartialEq, Eq, Clone, Copy
//@include ../paths_spec.rs
//@include ../basename.rs
// ---- every location of every layout stays beneath its base ---------------------------------
/// assumptions about texts of dependencies: identifiers render as hexadecimal digits (and '-'), case mapping
/// neither creates nor removes separators and dots
pub open spec fn plain(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '/' && s[k] != '.' }
#[verifier::external_body]
pub broadcast proof fn ax_code(c: CodeId) ensures plain(#[trigger] c.view()) {}
#[verifier::external_body]
pub proof fn ax_hex(n: int) ensures plain(lhex(n)), plain(uhex(n)), plain(uhex2(n)), uhex2(n).len() == 2 {}
#[verifier::external_body]
pub broadcast proof fn ax_uuid(b: Seq<u8>) ensures plain(#[trigger] uuid_lower(b)), uuid_lower(b).len() == 32 {}
#[verifier::external_body]
pub broadcast proof fn ax_uuid2(b: Seq<u8>) ensures plain(#[trigger] uuid_upper(b)), uuid_upper(b).len() == 32 {}
#[verifier::external_body]
pub broadcast proof fn ax_bp(d: DebugId) ensures plain(#[trigger] breakpad_of(d)), breakpad_of(d).len() >= 33 {}
#[verifier::external_body]
pub broadcast proof fn ax_base(s: Str) ensures !has_char(#[trigger] base_name(s), '/') && !has_char(base_name(s), '\\') {}
#[verifier::external_body]
pub broadcast proof fn ax_low(s: Str) ensures (#[trigger] s_lower(s)).len() == 0 <==> s.len() == 0, !has_char(s, '/') ==> !has_char(s_lower(s), '/'), s_lower(s) =~= seq!['.', '.'] ==> s =~= seq!['.', '.'], plain(s) ==> plain(s_lower(s)) {}
#[verifier::external_body]
pub broadcast proof fn ax_up(s: Str) ensures plain(s) ==> plain(#[trigger] s_upper(s)) {}

/// a parent-directory component at position i
pub open spec fn dd(s: Str, i: int) -> bool { 0 <= i && i + 2 <= s.len() && s[i] == '.' && s[i + 1] == '.' && (i == 0 || s[i - 1] == '/') && (i + 2 == s.len() || s[i + 2] == '/') }
/// a relative path that names nothing above its base
#[verifier::opaque]
pub open spec fn beneath(s: Str) -> bool { (s.len() > 0 ==> s[0] != '/') && forall|i: int| !dd(s, i) }
pub proof fn lemma_plain(s: Str) requires plain(s) ensures beneath(s) { reveal(beneath); }
pub proof fn lemma_name(s: Str) requires !has_char(s, '/'), s.len() > 0, !(s =~= seq!['.', '.']) ensures beneath(s) {
    reveal(beneath);
    assert(s[0] != '/');
    assert forall|i: int| !dd(s, i) by { if dd(s, i) { if i > 0 { assert(s[i - 1] == '/'); } if i + 2 < s.len() { assert(s[i + 2] == '/'); } assert(s =~= seq!['.', '.']); } }
}
pub proof fn lemma_join(a: Str, b: Str)
    requires beneath(a), beneath(b), a.len() > 0
    ensures beneath(a + seq!['/'] + b)
{
    reveal(beneath);
    let s = a + seq!['/'] + b; let n = a.len() as int;
    assert(s[0] == a[0]); assert(s[n] == '/');
    assert forall|i: int| !dd(s, i) by { if dd(s, i) {
        if i + 2 <= n { assert(s[i] == a[i] && s[i + 1] == a[i + 1]); if i > 0 { assert(s[i - 1] == a[i - 1]); } if i + 2 < n { assert(s[i + 2] == a[i + 2]); } assert(dd(a, i)); }
        else if i + 2 == n + 1 { assert(s[i + 1] == '/'); } else if i == n {} 
        else { let j = i - n - 1; assert(s[i] == b[j] && s[i + 1] == b[j + 1]); if j > 0 { assert(s[i - 1] == b[j - 1]); } if j + 2 < b.len() { assert(s[i + 2] == b[j + 2]); } assert(dd(b, j)); }
    } }
}
/// a prefix of a path with an extension
pub open spec fn is_ext(t: Str) -> bool { t.len() > 0 && t[0] == '.' && forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] != '/' && (t[j] == '.' ==> j + 1 < t.len() && t[j + 1] != '.' && t[j + 1] != '/') }
pub proof fn lemma_ext(p: Str, k: int, t: Str)
    requires beneath(p), 0 <= k <= p.len(), is_ext(t)
    ensures beneath(p.subrange(0, k) + t)
{
    reveal(beneath);
    let s = p.subrange(0, k) + t;
    if k > 0 { assert(s[0] == p[0]); } else { assert(s[0] == t[0]); }
    assert forall|i: int| !dd(s, i) by { if dd(s, i) {
        if i + 2 > k { assert(s[i + 1] == t[i + 1 - k]); if i + 2 < s.len() { assert(s[i + 2] == t[i + 2 - k]); } }
        else { assert(s[i] == p[i] && s[i + 1] == p[i + 1]); if i > 0 { assert(s[i - 1] == p[i - 1]); } if i + 2 == k { assert(s[i + 2] == t[0]); } else { assert(s[i + 2] == p[i + 2]); assert(dd(p, i)); } }
    } }
}
pub proof fn lemma_ext_all(p: Str, t: Str) requires beneath(p), is_ext(t) ensures beneath(p + t) { lemma_ext(p, p.len() as int, t); assert(p.subrange(0, p.len() as int) =~= p); }
pub proof fn lemma_exts()
    ensures is_ext(".sym"@), is_ext(".src.zip"@), is_ext(".debug"@), is_ext(".app"@), "/"@ =~= seq!['/']
{ reveal_strlit(".sym"); reveal_strlit(".src.zip"); reveal_strlit(".debug"); reveal_strlit(".app"); reveal_strlit("/"); }
/// name of an identity -> usable component
pub proof fn lemma_file(f: Option<String>, q: bool)
    requires file_name_of(f).is_some()
    ensures beneath(fold_name(file_name_of(f).unwrap(), q)), fold_name(file_name_of(f).unwrap(), q).len() > 0, beneath(s_lower(file_name_of(f).unwrap())), s_lower(file_name_of(f).unwrap()).len() > 0
{
    broadcast use {ax_base, ax_low};
    reveal_strlit(".."); reveal_strlit("");
    let b = file_name_of(f).unwrap();
    assert(".."@ =~= seq!['.', '.']); assert(""@ =~= Seq::<char>::empty());
    if b.len() == 0 { assert(b =~= ""@); }
    if b =~= seq!['.', '.'] { assert(b =~= ".."@); }
    lemma_name(b); lemma_name(s_lower(b));
}
pub proof fn lemma_3(a: Str, b: Str, c: Str)
    requires beneath(a), a.len() > 0, beneath(b), beneath(c)
    ensures beneath(a + "/"@ + b + "/"@ + c), beneath(a + "/"@ + b)
{ lemma_exts(); lemma_join(a, b); lemma_join(a + seq!['/'] + b, c); assert(a + "/"@ + b =~= a + seq!['/'] + b); assert(a + "/"@ + b + "/"@ + c =~= a + seq!['/'] + b + seq!['/'] + c); }
pub proof fn lemma_plain_cat(a: Str, b: Str) requires plain(a), plain(b) ensures plain(a + b)
{ assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] (a + b)[k] != '/' && (a + b)[k] != '.' by { if k < a.len() { assert(a[k] != '/'); } else { assert(b[k - a.len()] != '/'); } } }
pub proof fn lemma_sub_plain(a: Str, x: int, y: int) requires plain(a), 0 <= x <= y <= a.len() ensures plain(a.subrange(x, y))
{ assert forall|k: int| 0 <= k < y - x implies #[trigger] a.subrange(x, y)[k] != '/' && a.subrange(x, y)[k] != '.' by { assert(a[x + k] != '/'); } }

pub proof fn lemma_gdb(i: ObjectId) ensures p_gdb(i).is_some() ==> beneath(p_gdb(i).unwrap())
{ reveal(p_gdb); broadcast use ax_code; if p_gdb(i).is_some() { let c = code_of(i).unwrap(); lemma_sub_plain(c, 0, 2); lemma_sub_plain(c, 2, c.len() as int); lemma_plain(c.subrange(0, 2)); lemma_plain(c.subrange(2, c.len() as int)); lemma_plain(Seq::empty()); lemma_3(c.subrange(0, 2), c.subrange(2, c.len() as int), Seq::empty()); } }
/// no dots at all, does not start with a separator
pub proof fn lemma_nodot(s: Str) requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '.', s.len() > 0 ==> s[0] != '/' ensures beneath(s) { reveal(beneath); }
pub proof fn lemma_lldb_text(b: Seq<u8>, n: int) requires 0 <= n ensures (forall|k: int| 0 <= k < lldb_text(b, n).len() ==> #[trigger] lldb_text(b, n)[k] != '.'), lldb_text(b, n).len() > 0 ==> lldb_text(b, n)[0] != '/', n > 0 ==> lldb_text(b, n).len() > 0
    decreases n
{
    if n > 0 {
        lemma_lldb_text(b, n - 1); ax_hex(b[n - 1] as int);
        let a = lldb_text(b, n - 1); let h = uhex2(b[n - 1] as int); let r = lldb_text(b, n);
        assert(h[0] != '/');
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] != '.' by { if k < a.len() { assert(r[k] == a[k]); } else if k < a.len() + 2 { assert(r[k] == h[k - a.len()]); } }
        if a.len() > 0 { assert(r[0] == a[0]); } else { assert(r[0] == h[0]); }
    }
}
pub proof fn lemma_lldb(i: ObjectId) ensures p_lldb(i).is_some() ==> beneath(p_lldb(i).unwrap())
{ reveal(p_lldb); if let Some(u) = mach_uuid(i) { lemma_lldb_text(u.bytes(), 16); lemma_nodot(lldb_text(u.bytes(), 16)); } }
pub proof fn lemma_pdb(i: ObjectId, q: bool) ensures p_pdb(i, q).is_some() ==> beneath(p_pdb(i, q).unwrap()) && p_pdb(i, q).unwrap().len() > 0
{
    reveal(p_pdb); broadcast use {ax_uuid, ax_uuid2};
    if p_pdb(i, q).is_some() {
        let d = i.debug_id.unwrap();
        lemma_file(i.debug_file, q);
        let age = if i.object_type == ObjectType::PeDotnet { u32::MAX } else { debug_age(d) };
        ax_hex(age as int);
        lemma_plain_cat(uuid_lower(debug_uuid(d).bytes()), uhex(age as int));
        lemma_plain_cat(uuid_upper(debug_uuid(d).bytes()), lhex(age as int));
        let f = fold_name(file_name_of(i.debug_file).unwrap(), q);
        lemma_plain(pdb_sig(i, d, q)); lemma_3(f, pdb_sig(i, d, q), f);
    }
}
pub proof fn lemma_pe(i: ObjectId, q: bool) ensures p_pe(i, q).is_some() ==> beneath(p_pe(i, q).unwrap())
{
    reveal(p_pe); broadcast use {ax_code, ax_low, ax_up};
    if p_pe(i, q).is_some() {
        let c = code_of(i).unwrap();
        lemma_file(i.code_file, false);
        let f = file_name_of(i.code_file).unwrap();
        lemma_plain(c); lemma_3(s_lower(f), c, s_lower(f));
        if c.len() >= 8 {
            let a = c.subrange(0, 8); let b = c.subrange(8, c.len() as int);
            lemma_sub_plain(c, 0, 8); lemma_sub_plain(c, 8, c.len() as int);
            lemma_plain_cat(s_upper(a), s_lower(b)); lemma_plain(s_upper(a) + s_lower(b));
            lemma_3(f, s_upper(a) + s_lower(b), f);
            assert(f + "/"@ + (s_upper(a) + s_lower(b)) + "/"@ + f =~= f + "/"@ + s_upper(a) + s_lower(b) + "/"@ + f);
        }
    }
}
/// the breakpad location and its source bundle
pub proof fn lemma_breakpad(i: ObjectId, t: Str) requires is_ext(t) ensures breakpad_stem(i).is_some() ==> beneath(breakpad_stem(i).unwrap() + t)
{
    reveal(breakpad_stem); broadcast use ax_bp;
    if breakpad_stem(i).is_some() {
        lemma_file(i.debug_file, false);
        reveal_strlit(".exe"); reveal_strlit(".dll"); reveal_strlit(".pdb");
        let f = file_name_of(i.debug_file).unwrap(); let d = breakpad_of(i.debug_id.unwrap());
        lemma_plain(d); lemma_3(f, d, f);
        let p = f + "/"@ + d + "/"@ + f;
        let st = breakpad_stem(i).unwrap();
        lemma_ext(p, st.len() as int, t);
        assert(p.subrange(0, st.len() as int) =~= st);
    }
}
pub proof fn lemma_cut(p: Str) requires beneath(p) ensures beneath(cut_at_last(p, '.') + ".src.zip"@)
{
    lemma_exts();
    if has_char(p, '.') { lemma_last(p, '.'); let i = choose|i: int| is_last(p, '.', i); assert(is_last(p, '.', i)); lemma_ext(p, i, ".src.zip"@); }
    else { lemma_ext_all(p, ".src.zip"@); }
}
pub proof fn lemma_symstore(t: FileType, i: ObjectId, q: bool) ensures p_symstore(t, i, q).is_some() ==> beneath(p_symstore(t, i, q).unwrap())
{
    broadcast use {ax_code, ax_uuid};
    reveal_strlit("/elf-buildid-"); reveal_strlit("_.debug/elf-buildid-sym-"); reveal_strlit("/_.debug"); reveal_strlit("/mach-uuid-"); reveal_strlit("_.dwarf/mach-uuid-sym-"); reveal_strlit("/_.dwarf"); reveal_strlit("/");
    lemma_pdb(i, q); lemma_pe(i, q);
    match t {
        FileType::ElfCode => if p_symstore(t, i, q).is_some() {
            lemma_file(i.code_file, q);
            let c = code_of(i).unwrap(); let f = fold_name(file_name_of(i.code_file).unwrap(), q);
            let m = "/elf-buildid-"@.subrange(1, 13);
            lemma_plain_cat(m, c); lemma_plain(m + c); lemma_3(f, m + c, f);
            assert(f + "/"@ + (m + c) + "/"@ + f =~= p_symstore(t, i, q).unwrap());
        },
        FileType::ElfDebug => if p_symstore(t, i, q).is_some() {
            let c = code_of(i).unwrap(); let f = "_.debug/elf-buildid-sym-"@.subrange(0, 7);
            let m = "_.debug/elf-buildid-sym-"@.subrange(8, 24);
            lemma_name7(f);
            lemma_plain_cat(m, c); lemma_plain(m + c); lemma_3(f, m + c, f);
            assert("/_.debug"@ =~= "/"@ + f);
            assert("_.debug/elf-buildid-sym-"@ =~= f + "/"@ + m);
            assert(f + "/"@ + (m + c) + "/"@ + f =~= p_symstore(t, i, q).unwrap());
        },
        FileType::MachCode => if p_symstore(t, i, q).is_some() {
            lemma_file(i.code_file, q);
            let c = uuid_lower(mach_uuid(i).unwrap().bytes()); let f = fold_name(file_name_of(i.code_file).unwrap(), q);
            let m = "/mach-uuid-"@.subrange(1, 11);
            lemma_plain_cat(m, c); lemma_plain(m + c); lemma_3(f, m + c, f);
            assert(f + "/"@ + (m + c) + "/"@ + f =~= p_symstore(t, i, q).unwrap());
        },
        FileType::MachDebug => if p_symstore(t, i, q).is_some() {
            let c = uuid_lower(mach_uuid(i).unwrap().bytes()); let f = "_.dwarf/mach-uuid-sym-"@.subrange(0, 7);
            let m = "_.dwarf/mach-uuid-sym-"@.subrange(8, 22);
            lemma_name7(f);
            lemma_plain_cat(m, c); lemma_plain(m + c); lemma_3(f, m + c, f);
            assert("/_.dwarf"@ =~= "/"@ + f);
            assert("_.dwarf/mach-uuid-sym-"@ =~= f + "/"@ + m);
            assert(f + "/"@ + (m + c) + "/"@ + f =~= p_symstore(t, i, q).unwrap());
        },
        FileType::SourceBundle => if p_pdb(i, q).is_some() { lemma_cut(p_pdb(i, q).unwrap()); },
        _ => {}
    }
}
pub proof fn lemma_name7(f: Str) requires f.len() == 7, forall|k: int| 0 <= k < 7 ==> f[k] != '/' ensures beneath(f) { assert(!has_char(f, '/')); lemma_name(f); }
pub proof fn lemma_index2(s: Str) requires beneath(s) ensures beneath(index2(s))
{
    broadcast use ax::lemma_two;
    if let Some(k) = bound_at(s, 2) {
        assert(k > 0); reveal(beneath);
        let j = if (s[k - 1] == '/' || s[k - 1] == '.') && bound_at(s, 1).is_some() { bound_at(s, 1).unwrap() } else { k };
        let p = s.subrange(0, j);
        assert(j >= 1); assert(p[0] == s[0]);
        assert(j <= 2);
        assert(s[k - 1] == '/' || s[k - 1] == '.' ==> j == 1);
        assert(!has_char(p, '/')) by { if has_char(p, '/') { let x = choose|x: int| 0 <= x < p.len() && p[x] == '/'; assert(x == 1); assert(s[1] == '/'); } }
        assert(!(p =~= seq!['.', '.'])) by { if p =~= seq!['.', '.'] { assert(p[1] == s[1]); } }
        lemma_name(p); lemma_exts(); lemma_join(p, s);
        assert(p + "/"@ + s =~= p + seq!['/'] + s);
    }
}
pub proof fn lemma_unified(t: FileType, i: ObjectId) ensures p_unified(t, i).is_some() ==> beneath(p_unified(t, i).unwrap())
{
    broadcast use {ax_code, ax_uuid, ax_bp, ax_low};
    if p_unified(t, i).is_some() {
        let id = target_id(t, i).unwrap();
        assert(plain(id));
        let k = bound_at(id, 2).unwrap();
        lemma_sub_plain(id, 0, k); lemma_sub_plain(id, k, id.len() as int);
        let a = id.subrange(0, k); let b = id.subrange(k, id.len() as int);
        lemma_plain(a); lemma_plain(b);
        reveal_strlit("executable"); reveal_strlit("debuginfo"); reveal_strlit("breakpad"); reveal_strlit("sourcebundle"); reveal_strlit("uuidmap"); reveal_strlit("bcsymbolmap"); reveal_strlit("il2cpp"); reveal_strlit("proguard");
        lemma_plain(unified_suffix(t));
        lemma_3(a, b, unified_suffix(t));
    }
}
pub proof fn lemma_layout(l: DirectoryLayoutType, t: FileType, i: ObjectId) ensures forall|k: int| 0 <= k < layout_paths(l, t, i).len() ==> beneath(#[trigger] layout_paths(l, t, i)[k])
{
    broadcast use ax_code;
    lemma_exts();
    match l {
        DirectoryLayoutType::Native => {
            lemma_gdb(i); lemma_lldb(i); lemma_pdb(i, false); lemma_pe(i, false); lemma_breakpad(i, ".sym"@); lemma_breakpad(i, ".src.zip"@);
            if p_gdb(i).is_some() { lemma_ext_all(p_gdb(i).unwrap(), ".debug"@); lemma_ext_all(p_gdb(i).unwrap(), ".src.zip"@); }
            if p_lldb(i).is_some() { lemma_ext_all(p_lldb(i).unwrap(), ".app"@); lemma_ext_all(p_lldb(i).unwrap(), ".src.zip"@); }
            if p_pdb(i, false).is_some() { lemma_cut(p_pdb(i, false).unwrap()); }
        },
        DirectoryLayoutType::Symstore => { lemma_symstore(t, i, false); },
        DirectoryLayoutType::SymstoreIndex2 => { lemma_symstore(t, i, false); if let Some(s) = p_symstore(t, i, false) { lemma_index2(s); } },
        DirectoryLayoutType::Ssqp => { lemma_symstore(t, i, true); },
        DirectoryLayoutType::Debuginfod => {
            if p_debuginfod(t, i).is_some() { let c = code_of(i).unwrap(); reveal_strlit("/executable"); reveal_strlit("/debuginfo");
                assert(c[0] != '/');
                let p = p_debuginfod(t, i).unwrap();
                assert(p[0] == c[0]);
                assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] != '.' by { if k < c.len() { assert(p[k] == c[k]); } }
                lemma_nodot(p); }
        },
        DirectoryLayoutType::Unified => { lemma_unified(t, i); },
        DirectoryLayoutType::SlashSymbols => {
            if p_slash(i).is_some() { lemma_file(i.code_file, false); let c = code_of(i).unwrap(); let f = file_name_of(i.code_file).unwrap(); reveal_strlit("/symbols");
                lemma_plain(c); let m = "/symbols"@.subrange(1, 8); lemma_plain(m); lemma_3(f, c, m); assert(f + "/"@ + c + "/"@ + m =~= p_slash(i).unwrap()); }
        },
    }
}
pub proof fn lemma_cased(c: FilenameCasing, s: Str) requires beneath(s) ensures beneath(cased(c, s))
{
    reveal(beneath);
    let r = cased(c, s);
    assert forall|i: int| !dd(r, i) by { if dd(r, i) {
        assert forall|k: int| 0 <= k < s.len() implies (r[k] == '.' ==> s[k] == '.') && (r[k] == '/' ==> s[k] == '/') by {}
        assert(dd(s, i)); } }
}
pub proof fn lemma_compressed(s: Str) requires beneath(s) ensures beneath(compressed(s))
{
    reveal(beneath);
    let r = compressed(s);
    if s.len() > 1 { assert(r[0] == s[0]); }
    assert forall|i: int| !dd(r, i) by { if dd(r, i) {
        assert(i + 2 < r.len() - 1); assert(r[i] == s[i] && r[i + 1] == s[i + 1] && r[i + 2] == s[i + 2]); if i > 0 { assert(r[i - 1] == s[i - 1]); } assert(dd(s, i)); } }
}
pub proof fn lemma_with_compressed(p: Seq<Str>) requires forall|k: int| 0 <= k < p.len() ==> beneath(#[trigger] p[k]) ensures forall|k: int| 0 <= k < with_compressed(p).len() ==> beneath(#[trigger] with_compressed(p)[k])
    decreases p.len()
{ if p.len() > 0 { assert forall|k: int| 0 <= k < p.drop_last().len() implies beneath(#[trigger] p.drop_last()[k]) by { assert(p[k] == p.drop_last()[k]); } lemma_with_compressed(p.drop_last()); assert(beneath(p[p.len() - 1])); lemma_compressed(p.last());
    let r = with_compressed(p); let q = with_compressed(p.drop_last());
    assert forall|k: int| 0 <= k < r.len() implies beneath(#[trigger] r[k]) by { if k < q.len() { assert(r[k] == q[k]); } } } }
/// whatever the identity, every location of every layout stays beneath the base it is joined to
pub proof fn theorem_beneath(l: DirectoryLayout, t: FileType, i: ObjectId)
    ensures forall|k: int| 0 <= k < all_paths(l, t, i).len() ==> beneath(#[trigger] all_paths(l, t, i)[k])
{
    lemma_layout(l.ty, t, i);
    let base = layout_paths(l.ty, t, i);
    let c = Seq::new(base.len(), |k: int| cased(l.casing, base[k]));
    assert forall|k: int| 0 <= k < c.len() implies beneath(#[trigger] c[k]) by { lemma_cased(l.casing, base[k]); }
    lemma_with_compressed(c);
}
// ---- joining a location to a base -----------------------------------------------------------
pub uninterp spec fn trim_slashes(s: Str) -> Str;
#[verifier::external_body]
pub fn vp_trim_slashes(s: &str) -> (r: &str) ensures r@ == trim_slashes(s@) { s.trim_matches('/') }
//@item crates/symbolicator-sources/src/remotefile.rs SourceLocation
impl SourceLocation {
//@fn crates/symbolicator-sources/src/remotefile.rs SourceLocation::prefix ren=is_empty
//@sub? $p.trim_matches(&['/'][..]) ==> vp_trim_slashes($p)
//@sub? $p.trim_matches('/') ==> vp_trim_slashes($p)
//@spec
    ensures r@ =~= (if trim_slashes(prefix@).len() == 0 { self.0@ } else { trim_slashes(prefix@) + seq!['/'] + self.0@ }),
//@end
}
}
fn main() {}
