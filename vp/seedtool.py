"""Development tool: plants a bug in a scratch worktree, writes seeded/<id>/, and confirms it (build, tests, demo, check).  No check uses it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(c, cwd=R, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors='replace', timeout=t)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/vp-demo-XXXXXX) || exit 2
trap 'find "$d" -delete' EXIT
cp -r "$here/crate/." "$d/"
find "$d" \\( -name '*.rs' -o -name '*.toml' \\) -exec sed -i "s|@REPO@|$repo|g" {} +
cd "$d" && CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline -q || exit 3
exec_() { "$d/target/debug/demo"; }
exec_
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
'''
SRC = 'symbolicator-sources = { path = "@REPO@/crates/symbolicator-sources" }\n'
def svc_files():
    b = os.path.join(V, 'harness/svc'); out = {}
    for d, _, fs in os.walk(b):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, b)
            if rel.startswith(('stubs/', 'service/')): out['crate/' + rel] = open(p).read()
    return out
def seed_svc(id, prop, edits, main, needs, breaks, hooks='', **kw):
    t = open(os.path.join(V, 'harness/svc/Cargo.toml')).read()
    deps = t[t.index('symbolicator-service'):]
    i = DEMO.index("find \"$d\" \\(")
    demo = DEMO[:i] + SVC_PREP + hooks + DEMO[i:]
    global TOML
    old = TOML; TOML = TOML.replace('[workspace]', '[workspace]\nexclude = ["service", "stubs"]')
    try: return seed(id, prop, edits, main, needs, breaks, deps=deps, extra=svc_files(), demo_sh=demo, svc=True, **kw)
    finally: TOML = old
SVC_PREP = r'''mkdir -p "$d/service"; cp -r "$repo/crates/symbolicator-service/src" "$d/service/src"
find "$d/service/src" -name '*.rs' -exec sed -i -E 's/(std::time::)?\bSystemTime::now\(\)/::vpclock::system()/g; s/(std::time::)?\bInstant::now\(\)/::vpclock::instant()/g' {} +
grep -rlZ '\.elapsed()' "$d/service/src" | while IFS= read -r -d '' f; do sed -i 's/\.elapsed()/.vp_elapsed()/g' "$f"; printf '\n#[allow(unused_imports)]\nuse ::vpclock::Elapsed as _;\n' >> "$f"; done
: > "$d/service/src/logging.rs"
'''
def seed_nat(id, prop, edits, main, needs, breaks, hooks='', files=None, **kw):
    """a demonstration against symbolicator-native; `lab` is the replay's request builder"""
    sys.path.insert(0, os.path.join(V, 'vp')); import svc
    deps = open(os.path.join(V, 'harness/svc/Cargo.toml')).read(); deps = deps[deps.index('symbolicator-service'):]
    deps = 'symbolicator-native = { path = "native" }\nminidump = { path = "nstubs/minidump" }\n' + deps
    extra = svc_files()
    b = os.path.join(V, 'harness/nat/stubs')
    for d, _, fs in os.walk(b):
        for f in fs: p = os.path.join(d, f); extra['crate/nstubs/' + os.path.relpath(p, b)] = open(p).read()
    t = open(os.path.join(V, 'harness/nat/native/Cargo.toml')).read()
    extra['crate/native/Cargo.toml'] = t.replace('../stubs/', '../nstubs/').replace('../../svc/stubs/', '../stubs/').replace('../../svc/service', '../service')
    extra['crate/native/lib.rs'] = svc.NATIVE_LIB; extra['crate/native/cficaches.rs'] = svc.NATIVE_CFI
    extra['crate/src/vp_svc/mod.rs'] = open(os.path.join(V, 'harness/svc/src/lib.rs')).read().replace('use rng::', 'use self::rng::'); extra['crate/src/vp_svc/rng.rs'] = open(os.path.join(V, 'harness/svc/src/rng.rs')).read()
    extra['crate/src/lab.rs'] = open(os.path.join(V, 'harness/nat/src/lib.rs')).read().replace('use vp_svc::*;', 'use crate::vp_svc::*;')
    extra.update(files or {})
    i = DEMO.index("find \"$d\" \\(")
    demo = DEMO[:i] + SVC_PREP + NAT_PREP + hooks + DEMO[i:]
    global TOML
    old = TOML; TOML = TOML.replace('[workspace]', '[workspace]\nexclude = ["service", "stubs", "native", "nstubs"]')
    try: return seed(id, prop, edits, '#![allow(warnings)]\nmod vp_svc; mod lab; use lab::*;\n' + main, needs, breaks, deps=deps + '[profile.dev.package.symbolic-common]\noverflow-checks = false\n', extra=extra, demo_sh=demo, svc=True, **kw)
    finally: TOML = old
def seed_js(id, prop, edits, main, needs, breaks, hooks='', files=None, **kw):
    """a demonstration against symbolicator-js; `lab` is the replay's request builder"""
    sys.path.insert(0, os.path.join(V, 'vp')); import svc
    deps = open(os.path.join(V, 'harness/svc/Cargo.toml')).read(); deps = deps[deps.index('symbolicator-service'):]
    deps = 'symbolicator-js = { path = "js" }\n' + deps
    extra = svc_files()
    for n in ('Cargo.toml', 'src/lib.rs'): extra['crate/nstubs/data-url/' + n] = open(os.path.join(V, 'harness/jsn/stubs/data-url', n)).read()
    t = open(os.path.join(V, 'harness/jsn/js/Cargo.toml')).read()
    extra['crate/js/Cargo.toml'] = t.replace('../stubs/', '../nstubs/').replace('../../svc/stubs/', '../stubs/').replace('../../svc/service', '../service')
    extra['crate/src/vp_svc/mod.rs'] = open(os.path.join(V, 'harness/svc/src/lib.rs')).read().replace('use rng::', 'use self::rng::'); extra['crate/src/vp_svc/rng.rs'] = open(os.path.join(V, 'harness/svc/src/rng.rs')).read()
    extra['crate/src/lab.rs'] = open(os.path.join(V, 'harness/jsn/src/lib.rs')).read().replace('use vp_svc::*;', 'use crate::vp_svc::*;')
    extra.update(files or {})
    i = DEMO.index("find \"$d\" \\(")
    demo = DEMO[:i] + SVC_PREP + JS_PREP + hooks + DEMO[i:]
    global TOML
    old = TOML; TOML = TOML.replace('[workspace]', '[workspace]\nexclude = ["service", "stubs", "js", "nstubs"]')
    try: return seed(id, prop, edits, '#![allow(warnings)]\nmod vp_svc; mod lab; use lab::*;\n' + main, needs, breaks, deps=deps + '[profile.dev.package.symbolic-common]\noverflow-checks = false\n', extra=extra, demo_sh=demo, svc=True, **kw)
    finally: TOML = old
JS_PREP = r'''cp -r "$repo/crates/symbolicator-js/src" "$d/js/src"
find "$d/js/src" -name '*.rs' -exec sed -i -E 's/(std::time::)?\bSystemTime::now\(\)/::vpclock::system()/g; s/(std::time::)?\bInstant::now\(\)/::vpclock::instant()/g' {} +
sed -i -E 's/^mod (\w+);/pub mod \1;/' "$d/js/src/lib.rs"
'''
NAT_PREP = r'''cp -r "$repo/crates/symbolicator-native/src" "$d/native/src"
find "$d/native/src" -name '*.rs' -exec sed -i -E 's/(std::time::)?\bSystemTime::now\(\)/::vpclock::system()/g; s/(std::time::)?\bInstant::now\(\)/::vpclock::instant()/g; s/(filetime::)?\bFileTime::now\(\)/::filetime::FileTime::from_system_time(::vpclock::system())/g' {} +
cp "$here/crate/native/lib.rs" "$d/native/src/lib.rs"; cp "$here/crate/native/cficaches.rs" "$d/native/src/caches/cficaches.rs"
sed -i -E '/^(pub )?mod (apple|process_minidump);/d; s/^(pub )?mod (\w+);/pub mod \2;/' "$d/native/src/symbolication/mod.rs"
'''
def patch_of(edits):
    wt = '/tmp/seedwt'
    sh(f'git worktree remove --force {wt}'); sh('git worktree prune')
    rc, o = sh(f'git worktree add --detach {wt} HEAD')
    if rc: raise SystemExit(o)
    try:
        for f, a, b in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(a) != 1: raise SystemExit(f'{f}: {s.count(a)} matches of {a!r}')
            open(p, 'w').write(s.replace(a, b))
        return sh('git diff', wt)[1]
    finally: sh(f'git worktree remove --force {wt}')
def seed(id, prop, edits, main, needs, breaks, deps=SRC, extra=None, demo_sh=None, svc=False, tests=True, check=True):
    d = os.path.join(V, 'seeded', id)
    p = patch_of(edits)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    if demo_sh is None or svc:
        os.makedirs(os.path.join(d, 'crate/src'))
        open(os.path.join(d, 'crate/src/main.rs'), 'w').write(main)
        open(os.path.join(d, 'crate/Cargo.toml'), 'w').write(TOML + deps)
        if os.path.exists(os.path.join(V, 'harness/src/Cargo.lock')) and deps == SRC: pass
    for k, t in (extra or {}).items():
        q = os.path.join(d, k); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, 'w').write(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh or DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return verify(id, tests, check)
def verify(id, tests=True, check=True):
    d = os.path.join(V, 'seeded', id); prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    if sh('git status --porcelain')[1].strip(): raise SystemExit('/repo not clean')
    res = {}
    rc, o = sh(f'bash {d}/demo.sh'); res['demo clean'] = rc
    if rc: print(o[-1500:])
    rc, o = sh(f'git apply {d}/patch.diff')
    if rc: print('apply', o); return
    try:
        if tests:
            rc, o = sh('bash /opt/vp/build.sh'); res['build'] = rc
            if rc: print(o[-2500:])
            rc, o = sh('bash /opt/vp/test.sh /tmp/seedtest.json'); 
            base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/seedtest.json'))
            bp = base.get('passed') or base.get('stable') or base.get('tests'); gp = got.get('passed') or got.get('pass')
            res['tests lost'] = sorted(set(bp) - set(gp)) if bp and gp is not None else str(got)[:200]
        rc, o = sh(f'bash {d}/demo.sh'); res['demo patched'] = rc; res['demo says'] = next((l for l in o.split('\n') if l.strip() and 'panicked' not in l), '')[:160]
        if check:
            rc, o = sh(f'python3 vp/check.py {prop}', V); res['check'] = rc
            res['check says'] = '\n'.join([l[:200] for l in o.split('\n') if 'refused:' in l or 'UNDECIDED' in l or 'failing input' in l or 'no answer' in l][:4] + [o.strip().split('\n')[-1][:200]])
    finally: sh('git checkout -- .')
    good = not res.get('demo clean') and res.get('demo patched') and not res.get('build') and not res.get('tests lost')
    print(('GOOD' if good else 'BAD ') + (' CAUGHT' if res.get('check') == 1 else ' MISSED' if check else ''), id, prop)
    for k, v in res.items(): print('  ', k, ':', v)
    return res
if __name__ == '__main__':
    for i in sys.argv[1:]: verify(i, tests='--fast' not in sys.argv)
