"""Builds and runs replay harnesses: the executable form of a contract against the real, compiled code."""
import os, re, shutil, subprocess, time
ROOT, VERIF = os.environ.get('VP_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'cache')

class HResult:
    def __init__(s): s.status, s.fails, s.cases, s.distinct, s.samples, s.note, s.wall, s.rule = 'ERROR', [], 0, 0, [], '', 0.0, ''

def env(target):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUST_BACKTRACE='0')
    e.pop('RUSTFLAGS', None); e.pop('RUSTC_WRAPPER', None)
    return e

def sh(cmd, cwd, e, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        return -9, o.decode('utf8', 'replace') if isinstance(o, bytes) else o, 'timeout'

def stage(name, gen=None, root=ROOT):
    """copy of harness/<name> in the cache, with /repo paths filled in and generated files added"""
    src, dst = os.path.join(VERIF, 'harness', name), os.path.join(CACHE, 'h', name)
    os.makedirs(dst, exist_ok=True)
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, src)
            if rel.startswith('target'): continue
            b = open(p, 'rb').read()
            if f.endswith(('.toml', '.rs')): b = b.replace(b'@REPO@', root.encode())
            want[rel] = b
    for rel, txt in (gen or {}).items(): want[rel] = txt.encode()
    for rel, b in want.items():
        p = os.path.join(dst, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, 'rb').read() != b: open(p, 'wb').write(b)
    return dst

def parse(r, out):
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            k, _, t = l[5:].partition(' '); r.fails.append((k, t))
        elif l.startswith('SAMPLE ') and len(r.samples) < 5: r.samples.append(l[7:][:400])
        elif l.startswith('RULE '): r.rule = l[5:]
        elif l.startswith('CASES '):
            a = l.split(); r.cases, r.distinct = int(a[1]), int(a[2]); r.status = 'RAN'

EXTRA = {'srt': ['symsorter']}
def build(name, bin, gen=None, root=ROOT, timeout=700):
    extra_bins = {'c24': ['wasm-split']}.get(bin) or EXTRA.get(name, [])
    dst = stage(name, gen, root)
    t = open(os.path.join(dst, 'Cargo.toml')).read()
    for dep in re.findall(r'path = "\.\./(\w+)"', t): stage(dep, None, root)
    target = os.path.join(CACHE, 'target', name)
    e = env(target)
    rc, o, x = sh(['cargo', 'build', '--offline', '--bin', bin] + [y for x in extra_bins for y in ('--bin', x)], dst, e, timeout)
    return rc, os.path.join(target, 'debug', bin), o + x

def run(name, bin, seed, tier, gen=None, root=ROOT, args=(), extra_env=None, timeout=300):
    r, t = HResult(), time.time()
    try:
        g = gen(root) if callable(gen) else gen
    except Exception as x:
        r.note = f'extraction: {type(x).__name__}: {x}'; r.wall = time.time() - t; return r
    rc, exe, log = build(name, bin, g, root)
    if rc != 0:
        r.note = 'harness does not build against this tree: ' + '\n'.join([l for l in log.split('\n') if 'error' in l or '-->' in l][:8]); r.wall = time.time() - t; return r
    e = dict(os.environ); e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VP_REPO=root, RUST_BACKTRACE='0'); e.update(extra_env or {})
    rc, o, x = sh([exe] + list(args), CACHE, e, timeout if tier == 'quick' else 3000)
    parse(r, o)
    if rc != 0 and r.status != 'RAN':
        r.note = f'harness ended with {rc}: {x[-400:]}'
    r.wall = time.time() - t
    return r
