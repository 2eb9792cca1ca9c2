use symbolicator_sources::*;
use vp_src::*;
fn main() {
    let mut rep = Rep::new("identities = product of edge-case names, code ids, debug ids and object types plus random ones, each with every file type, layout and casing; a case is distinct by (layout, casing, type, resulting paths)");
    for i in identities(seed(), if thorough() { 60000 } else { 2500 }) {
        for t in FTYPES { for ty in LAYOUTS { for casing in CASINGS {
            let l = DirectoryLayout { ty, casing };
            let want = layout(l, t, &i);
            rep.case((format!("{ty:?}{casing:?}{t:?}"), want.clone()));
            match guarded(|| get_directory_paths(l, t, &i)) {
                Ok(got) => {
                    if got != want { rep.fail("paths", format!("layout={ty:?} casing={casing:?} type={t:?} id={i:?}: got {got:?}, documented {want:?}")); }
                    if want.len() > 1 { rep.sample(format!("{ty:?} {casing:?} {t:?} {i:?} -> {want:?}")); }
                }
                Err(e) => rep.fail("panic", format!("layout={ty:?} casing={casing:?} type={t:?} id={i:?}: panic {e}")),
            }
        } } }
    }
    rep.done();
}
