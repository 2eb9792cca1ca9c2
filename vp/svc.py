"""The service crates do not build here (dependencies are missing).  For replays their sources are copied on every run and compiled,
unedited but for the clock, against stand-ins for the missing dependencies."""
import os, re
def clock(t):
    t = re.sub(r'(?:\bstd::time::)?\bSystemTime::now\(\)', '::vpclock::system()', t)
    t = re.sub(r'(?:\bstd::time::)?\bInstant::now\(\)', '::vpclock::instant()', t)
    t = re.sub(r'(?:\bfiletime::)?\bFileTime::now\(\)', '::filetime::FileTime::from_system_time(::vpclock::system())', t)
    if re.search(r'\.elapsed\(\)', t):
        t = t.replace('.elapsed()', '.vp_elapsed()') + '\n#[allow(unused_imports)]\nuse ::vpclock::Elapsed as _;\n'
    return t
def crate(root, name, into, hooks=None, skip=()):
    out = {}
    base = os.path.join(root, 'crates', name, 'src')
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, base)
            if rel in skip: continue
            t = clock(open(p).read())
            h = (hooks or {}).get(rel)
            if h: t += '\n' + h + '\n'
            out[f'{into}/src/{rel}'] = t
    return out
# access to private items, as child modules of the module that holds them
HOOKS = {}
def service(root):
    out = crate(root, 'symbolicator-service', 'service', HOOKS)
    out['service/src/logging.rs'] = '// installs the log subscriber; left out (tracing-subscriber has no JSON support here)\n'
    return out
NATIVE_HOOKS = {}
NATIVE_LIB = """//! the modules of the crate that build here; `apple` and `process_minidump` are left out (their dependencies are missing)
pub mod caches;
pub mod interface;
pub mod metrics;
pub mod symbolication;
pub use symbolication::symbolicate::SymbolicationActor;
"""
NATIVE_CFI = """//! Stand-in: unwind information takes no part in symbolication.
use symbolicator_service::{caching::{Cache, SharedCacheRef}, objects::ObjectsActor};
#[derive(Clone, Debug)]
pub struct CfiCacheActor;
impl CfiCacheActor { pub fn new(_: Cache, _: SharedCacheRef, _: ObjectsActor) -> Self { CfiCacheActor } }
"""
NATIVE_LEFT_OUT = ('symbolication/apple.rs', 'symbolication/process_minidump.rs', 'caches/cficaches.rs')
def native(root):
    out = {'../svc/' + k: v for k, v in service(root).items()}
    out.update(crate(root, 'symbolicator-native', 'native', NATIVE_HOOKS, NATIVE_LEFT_OUT))
    out['native/src/lib.rs'] = NATIVE_LIB
    m = out['native/src/symbolication/mod.rs']
    out['native/src/symbolication/mod.rs'] = re.sub(r'(?m)^(?:pub )?mod (\w+);', lambda x: '' if f'symbolication/{x.group(1)}.rs' in NATIVE_LEFT_OUT else f'pub mod {x.group(1)};', m)
    out['native/src/caches/cficaches.rs'] = NATIVE_CFI
    return out
def js(root):
    out = {'../svc/' + k: v for k, v in service(root).items()}
    out.update(crate(root, 'symbolicator-js', 'js'))
    out['js/src/lib.rs'] = re.sub(r'(?m)^mod (\w+);', r'pub mod \1;', out['js/src/lib.rs'])
    return out
