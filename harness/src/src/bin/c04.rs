use std::collections::HashSet;
use symbolicator_sources::*;
use vp_src::{rng::Rng, *};
fn main() {
    let mut rep = Rep::new("random identities, layouts, file type lists, filters and symstore indexes holding a random subset of the locations; distinct by (layout, types, index subset, result)");
    let mut r = Rng::new(seed());
    let n = if thorough() { 400000 } else { 40000 };
    for _ in 0..n {
        let i = rand_id(&mut r);
        let l = DirectoryLayout { ty: LAYOUTS[r.below(7)], casing: CASINGS[r.below(3)] };
        let nt = r.below(6);
        let fts: Vec<FileType> = (0..nt).map(|_| FTYPES[r.below(FTYPES.len())]).collect();
        let nf = [0, 0, 1, 3, 8][r.below(5)];
        let filt: Vec<FileType> = (0..nf).map(|_| FTYPES[r.below(FTYPES.len())]).collect();
        let pat = r.below(4) == 0;
        let filters = SourceFilters { filetypes: filt.clone(), path_patterns: if pat { vec![Glob(glob::Pattern::new("*.pdb").unwrap())] } else { vec![] }, requires_checksum: r.below(8) == 0 };
        let mut all: Vec<String> = vec![];
        for t in &fts { if filters.is_allowed(&i, *t) { all.extend(layout(l, *t, &i).into_iter().rev()); } }
        let mut cfg = CommonSourceConfig::with_layout(l.ty); cfg.layout = l; cfg.filters = filters;
        let mut held: HashSet<String> = HashSet::new();
        let idx = if r.below(2) == 0 { None } else {
            for p in &all { if r.below(2) == 0 && !p.contains('\n') { held.insert(p.clone()); } }
            held.insert("other/1/other".into());
            let txt = held.iter().map(|p| format!("{p}\n")).collect::<String>();
            Some(SourceIndex::Symstore(SymstoreIndex::load(txt.as_bytes()).unwrap()))
        };
        let want: Vec<String> = all.into_iter().filter(|p| idx.is_none() || held.contains(p)).collect();
        rep.case((format!("{l:?}{fts:?}{}", idx.is_some()), want.clone()));
        match guarded(|| {
            let mut it = SourceLocationIter::new(&cfg, &fts, idx.as_ref(), &i);
            let mut v = vec![];
            while let Some(x) = it.next() { v.push(x.to_string()); if v.len() > 200 { break; } }
            (v, it.next().is_none())
        }) {
            Ok((got, fused)) => {
                if got != want || !fused { rep.fail("iter", format!("layout {l:?} types {fts:?} filter {filt:?} patterns {pat} index {:?} id {i:?}: got {got:?}, expected {want:?}", idx.as_ref().map(|_| &held))); }
                if want.len() > 3 { rep.sample(format!("{l:?} {fts:?} -> {want:?}")); }
            }
            Err(e) => rep.fail("panic", format!("layout {l:?} types {fts:?} id {i:?}: panic {e}")),
        }
    }
    rep.done();
}
