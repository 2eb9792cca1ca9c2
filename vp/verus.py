"""Runs Verus on a woven file and classifies what it says."""
import json, os, re, subprocess, time
import extract
from rsx import Unsupported

# diagnostics that mean: an obligation generated from the code was refuted / not discharged
FAILED = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                    r'possible arithmetic|possible division|decreases not satisfied|could not prove termination|'
                    r'recommendation not met|possible bit shift|loop invariant|unreachable|constructed value may fail')
LIMIT = re.compile(r'[Rr]esource limit|rlimit|timed? ?out')

class Result:
    def __init__(s):
        s.status, s.failed, s.undecided, s.times, s.obl = 'UNDECIDED', [], [], {}, 0
        s.fns, s.trusted, s.items, s.solver_ms, s.wall, s.cmd, s.out = [], [], [], 0, 0.0, '', ''
        s.canary_ok = None; s.uncontracted = []; s.errors = 0

def trusted_scan(text):
    out, cur = [], []
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if 'external_body' in l:
            seg = ' '.join(ls[i:i+3])
            m = re.search(r'\bfn (\w+)', seg[seg.index('external_body'):])
            if m: out.append('external_body ' + m.group(1))
        for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]', l): out.append('assume_specification ' + m.group(1))
        for m in re.finditer(r'uninterp spec fn (\w+)', l): out.append('uninterpreted ' + m.group(1))
        if re.search(r'\badmit\s*\(|\bassume\s*\(', l) and not l.strip().startswith('//'): out.append(f'ASSUME line {i+1}: {l.strip()[:80]}')
    return sorted(set(out))

def run_verus(path, extra=(), timeout=600):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--multiple-errors', '20', '--num-threads', '4', '--error-format=json', '--rlimit', '60'] + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = '', '{"level":"error","message":"timeout","spans":[],"rendered":"timeout"}', -9
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: js = json.loads(out)
    except ValueError: js = {}
    return ' '.join(cmd), rc, js, diags, err, time.time() - t

def verify(root, tpl, outdir, tag='main', canary=True, extra=()):
    r = Result()
    os.makedirs(outdir, exist_ok=True)
    try: w = extract.weave(root, tpl)
    except (Unsupported, OSError) as e:
        r.undecided.append(f'{type(e).__name__}: {e}'); return r
    except Exception as e:  # the weaver met a shape it does not know
        r.undecided.append(f'weaver: {type(e).__name__}: {e}'); return r
    path = os.path.join(outdir, tag + '.rs')
    open(path, 'w').write(w.text)
    r.fns, r.items, r.uncontracted = w.fns, w.items, w.uncontracted
    r.trusted = trusted_scan(w.text)
    r.cmd, rc, js, diags, raw, r.wall = run_verus(path, extra)
    r.out = raw
    vr = js.get('verification-results', {})
    r.obl, r.errors = vr.get('verified', 0), vr.get('errors', 0)
    smt = js.get('times-ms', {}).get('smt', {}) if isinstance(js.get('times-ms'), dict) else {}
    r.solver_ms = smt.get('smt-run', 0)
    per = {}
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): per[f['function'].split('::')[-1]] = f['time']
    r.times = per
    lines = w.text.split('\n')
    def fn_of(n):
        for f in r.fns:
            if f[4] <= n <= f[5]: return f
        return None
    for d in diags:
        if d.get('level') != 'error' or d['message'].startswith('aborting due'): continue
        sp = [s for s in d.get('spans', []) if s.get('is_primary')] or d.get('spans', [])
        near = [fn_of(s['line_start']) for s in d.get('spans', [])]
        near = [x for x in near if x]
        f = near[0] if near else None
        txt = ' '.join(sp[0]['text'][0]['text'].split())[:160] if sp and sp[0].get('text') else ''
        entry = dict(message=d['message'], fn=f[1] if f else '', where=f'{f[2]}:{f[3]}' if f else f'{path}:{sp[0]["line_start"] if sp else 0}', clause=txt, rendered=d.get('rendered', ''))
        if d['message'].startswith('timeout') or LIMIT.search(d['message']): r.undecided.append(f'resource limit: {entry["fn"]} {d["message"]}')
        elif FAILED.search(d['message']) and f and f[1] in w.closures: r.undecided.append(f'{d["message"]} in {f[1]}, which has a closure without a contract')
        elif FAILED.search(d['message']): r.failed.append(entry)
        else: r.undecided.append(f'{d["message"][:300]} [{entry["fn"] or entry["where"]}: {txt}]')
    if w.uncontracted:
        for q, m in w.uncontracted: r.undecided.append(f'{q} calls functions without a contract: {", ".join(m)}')
    if not r.undecided and not r.failed and (rc != 0 or not vr.get('success')):
        r.undecided.append(f'verus ended with status {rc} without a diagnostic')
    if r.obl == 0 and not r.failed: r.undecided.append('no obligations generated')
    # a run in which the front end gave up proves nothing, and refutes nothing either
    if vr.get('encountered-vir-error') or (r.undecided and r.obl == 0 and r.errors == 0): r.failed = []
    r.status = 'UNDECIDED' if r.undecided else 'FAILED' if r.failed else 'PROVED'
    if r.failed and r.undecided: r.status = 'FAILED' if not vr.get('encountered-vir-error') and r.errors else 'UNDECIDED'
    if r.status == 'PROVED' and canary:
        # vacuity: assert(false) at the start of every contracted function has to fail in each of them
        try:
            c = extract.weave(root, tpl, canary=True)
            cp = os.path.join(outdir, tag + '_canary.rs'); open(cp, 'w').write(c.text)
            _, _, js2, d2, _, _ = run_verus(cp, extra)
            hit = set()
            for d in d2:
                if d.get('level') == 'error' and d['message'].startswith('assertion failed'):
                    for s in d['spans']:
                        for f in c.fns:
                            if f[4] <= s['line_start'] <= f[5]: hit.add(f[1])
            r.canary_ok = [f[1] for f in c.fns if f[1] in hit]
            missing = [f[1] for f in c.fns if f[1] not in hit]
            if missing: r.status = 'UNDECIDED'; r.undecided.append('vacuous contract (assert(false) accepted): ' + ', '.join(missing))
        except Unsupported as e: r.status = 'UNDECIDED'; r.undecided.append(f'canary: {e}')
    return r
