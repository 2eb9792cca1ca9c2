// ---- modules of a symbolication request, and the std functions over them ---------------------------------
#[verifier::external_body] pub struct CodeId { s: String }
#[verifier::external_body] pub struct Scope { s: String }
#[verifier::external_body] pub struct Sources { s: String }
#[verifier::external_body] pub struct RewriteRules { s: String }
#[verifier::external_body] pub struct AllObjectCandidates { s: String }
#[verifier::external_body] pub struct ObjectCandidate { s: String }
#[verifier::external_body] pub struct ObjectHandle { s: String }
#[verifier::external_body] pub struct OwnedSymCache { s: String }
#[verifier::external_body] pub struct OwnedPortablePdbCache { s: String }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Arch { s: u8 }
#[verifier::external_body] pub struct Dur { s: u8 }
//@item crates/symbolicator-service/src/caching/cache_error.rs CacheError derive=
//@isub Timeout(Duration) ==> Timeout(Dur)
pub type CacheContents<T = ()> = Result<T, CacheError>;
//@item crates/symbolicator-service/src/utils/hex.rs HexValue derive=Clone, Copy
//@item crates/symbolicator-sources/src/types.rs ObjectType derive=Clone, Copy
//@item crates/symbolicator-service/src/types.rs ObjectFileStatus derive=Clone, Copy
//@item crates/symbolicator-service/src/types.rs RawObjectInfo derive=
//@item crates/symbolicator-service/src/objects/candidates.rs ObjectFeatures derive=Clone, Copy
//@item crates/symbolicator-native/src/interface.rs CompleteObjectInfo derive=
//@item crates/symbolicator-native/src/interface.rs AddrMode derive=Clone, Copy
//@item crates/symbolicator-native/src/symbolication/module_lookup.rs CacheFileEntry derive=
//@item crates/symbolicator-native/src/symbolication/module_lookup.rs CacheFile derive=
//@item crates/symbolicator-native/src/symbolication/module_lookup.rs CacheLookupResult derive=
//@item crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleEntry derive=
//@isub Arc<ObjectHandle> ==> ObjectHandle
//@item crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup derive=
//@isub Arc<[SourceConfig]> ==> Sources

pub open spec fn start(m: ModuleEntry) -> u64 { m.object_info.raw.image_addr.0 }
pub open spec fn size(m: ModuleEntry) -> u64 { match m.object_info.raw.image_size { Some(n) => n, None => 0 } }
/// sorted by load address
pub open spec fn sorted(m: Seq<ModuleEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> start(#[trigger] m[i]) <= start(#[trigger] m[j]) }
/// every position of the submitted list is that of exactly one module
pub open spec fn complete(m: Seq<ModuleEntry>) -> bool {
    (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).module_index < m.len())
    && (forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).module_index != (#[trigger] m[j]).module_index)
}
pub open spec fn starts(m: Seq<ModuleEntry>) -> Seq<u64> { Seq::new(m.len(), |i: int| start(m[i])) }
/// slice::binary_search: what it answers depends on the keys alone
pub uninterp spec fn searched(keys: Seq<u64>, key: u64) -> Result<usize, usize>;
/// for a sorted slice
#[verifier::external_body]
pub broadcast proof fn ax_searched(keys: Seq<u64>, key: u64)
    requires forall|i: int, j: int| 0 <= i < j < keys.len() ==> keys[i] <= keys[j]
    ensures match #[trigger] searched(keys, key) {
        Ok(i) => i < keys.len() && keys[i as int] == key,
        Err(i) => i <= keys.len() && (forall|j: int| 0 <= j < i ==> #[trigger] keys[j] < key) && forall|j: int| i <= j < keys.len() ==> key < #[trigger] keys[j] } {}
#[verifier::external_body]
pub fn vp_bsearch<'a, T, F: Fn(&'a T) -> u64>(v: &'a Vec<T>, key: &u64, f: F, Ghost(kf): Ghost<spec_fn(T) -> u64>) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)), forall|x: &'a T, y: u64| #[trigger] f.ensures((x,), y) ==> y == kf(*x),
    ensures r == searched(Seq::new(v@.len(), |i: int| kf(v@[i])), *key)
{ unimplemented!() }
/// the module of an address: of a relative one the module it names; of an absolute one the module with the greatest load address
/// not above it, unless the address lies past the end of that module.  A module without a size (the last one only) has no end;
/// one whose end lies outside of the address space is malformed and has no addresses
pub open spec fn module_at(m: Seq<ModuleEntry>, addr: u64, mode: AddrMode, r: Option<int>) -> bool {
    match mode {
        AddrMode::Abs => match r {
            Some(i) => 0 <= i < m.len() && last_not_above(m, addr, i) && start(m[i]) + size(m[i]) <= u64::MAX && (size(m[i]) == 0 || addr <= start(m[i]) + size(m[i])),
            None => (forall|j: int| 0 <= j < m.len() ==> addr < start(#[trigger] m[j])) || exists|i: int| 0 <= i < m.len() && #[trigger] last_not_above(m, addr, i) && (start(m[i]) + size(m[i]) > u64::MAX || size(m[i]) != 0 && start(m[i]) + size(m[i]) < addr),
        },
        AddrMode::Rel(k) => match r {
            Some(i) => 0 <= i < m.len() && m[i].module_index == k,
            None => forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).module_index != k,
        },
    }
}
pub open spec fn last_not_above(m: Seq<ModuleEntry>, addr: u64, i: int) -> bool { start(m[i]) <= addr && forall|j: int| 0 <= j < m.len() ==> start(#[trigger] m[j]) <= start(m[i]) || addr < start(m[j]) }
/// the module the lookup finds
pub open spec fn found(m: Seq<ModuleEntry>, addr: u64, mode: AddrMode) -> Option<int> {
    match mode {
        AddrMode::Abs => {
            let i = match searched(starts(m), addr) { Ok(i) => i as int, Err(i) => i - 1 };
            if i >= 0 && module_at(m, addr, mode, Some(i)) { Some(i) } else { None }
        }
        AddrMode::Rel(k) => if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).module_index == k { Some(choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).module_index == k) } else { None },
    }
}
impl ModuleLookup { pub open spec fn wf(&self) -> bool { sorted(self.modules@) && complete(self.modules@) } }
/// slice::iter().find(..)
#[verifier::external_body]
pub fn vp_find<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|x: T| f.requires((&x,)),
    ensures match r { Some(x) => exists|i: int| 0 <= i < v@.len() && *x == #[trigger] v@[i] && f.ensures((x,), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false) }
{ unimplemented!() }

impl CompleteObjectInfo {
//@fn crates/symbolicator-native/src/interface.rs CompleteObjectInfo::supports_absolute_addresses
//@ret r
//@spec
    ensures r == (self.raw.image_addr.0 != 0)
//@end
//@fn crates/symbolicator-native/src/interface.rs CompleteObjectInfo::abs_to_rel_addr keep=checked_sub,checked_add
//@ret r
//@spec
    ensures r == to_rel(*self, addr)
//@end
//@fn crates/symbolicator-native/src/interface.rs CompleteObjectInfo::rel_to_abs_addr keep=checked_sub,checked_add
//@ret r
//@spec
    ensures r == to_abs(*self, addr)
//@end
}
/// an image at 0 has no absolute addresses; a conversion that would leave the address space is missing
pub open spec fn to_rel(o: CompleteObjectInfo, addr: u64) -> Option<u64> { if o.raw.image_addr.0 != 0 && addr >= o.raw.image_addr.0 { Some((addr - o.raw.image_addr.0) as u64) } else { None } }
pub open spec fn to_abs(o: CompleteObjectInfo, addr: u64) -> Option<u64> { if o.raw.image_addr.0 != 0 && o.raw.image_addr.0 + addr <= u64::MAX { Some((o.raw.image_addr.0 + addr) as u64) } else { None } }
/// they are inverse to each other
pub proof fn convert(o: CompleteObjectInfo, a: u64) ensures to_rel(o, a) is Some ==> to_abs(o, to_rel(o, a)->Some_0) == Some(a), to_abs(o, a) is Some ==> to_rel(o, to_abs(o, a)->Some_0) == Some(a) {}

impl ModuleLookup {
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::get_module_by_addr keep=checked_sub,checked_add
//@sub? self . modules . binary_search_by_key ( & addr , | entry | entry . object_info . raw . image_addr . 0 ) ==> vp_bsearch ( & self . modules , & addr , | entry : & ModuleEntry | -> ( k : u64 ) ensures k == start ( * entry ) { entry . object_info . raw . image_addr . 0 } , Ghost ( | m : ModuleEntry | start ( m ) ) )
//@sub? self . modules . iter ( ) . find ( | entry | entry . module_index == this_module_index ) ==> vp_find ( & self . modules , | entry : & ModuleEntry | -> ( b : bool ) ensures b == ( entry . module_index == this_module_index ) { entry . module_index == this_module_index } )
//@ret r
//@spec
    requires self.wf()
    ensures module_at(self.modules@, addr, addr_mode, found(self.modules@, addr, addr_mode)),
        match r { Some(e) => found(self.modules@, addr, addr_mode) is Some && *e == self.modules@[found(self.modules@, addr, addr_mode)->Some_0], None => found(self.modules@, addr, addr_mode) is None },
//@start
    proof {
        ax_searched(starts(self.modules@), addr);
        assert(Seq::new(self.modules@.len(), |i: int| (|m: ModuleEntry| start(m))(self.modules@[i])) =~= starts(self.modules@));
        assert forall|j: int| 0 <= j < self.modules@.len() implies #[trigger] starts(self.modules@)[j] == start(self.modules@[j]) by {}
        assert forall|j: int| 0 <= j < self.modules@.len() implies #[trigger] start(self.modules@[j]) == starts(self.modules@)[j] by {}
        let p = match searched(starts(self.modules@), addr) { Ok(i) => i as int, Err(i) => i - 1 };
        if p >= 0 {
            assert forall|j: int| 0 <= j < self.modules@.len() implies start(#[trigger] self.modules@[j]) <= start(self.modules@[p]) || addr < start(self.modules@[j]) by { if j > p && searched(starts(self.modules@), addr) is Err { assert(addr < starts(self.modules@)[j]); } }
            assert(starts(self.modules@)[p] <= addr);
            assert(last_not_above(self.modules@, addr, p));
        }
    }
//@end
//@fn crates/symbolicator-native/src/symbolication/module_lookup.rs ModuleLookup::lookup_cache
//@ret r
//@spec
    requires self.wf()
    ensures module_at(self.modules@, addr, addr_mode, found(self.modules@, addr, addr_mode)),
        match found(self.modules@, addr, addr_mode) {
            Some(i) => { let m = self.modules@[i]; r matches Some(l) && l.module_index == m.module_index && *l.object_info == m.object_info && *l.cache == m.cache
                && l.relative_addr == (match addr_mode { AddrMode::Abs => to_rel(m.object_info, addr), AddrMode::Rel(_) => Some(addr) }) },
            None => r is None,
        }
//@end
}
