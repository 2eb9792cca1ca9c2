#!/usr/bin/env python3
"""check.py <property>: prove the contracts on the current /repo tree, replay them, write evidence."""
import json, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verus, harness, known
from props import PROPS
VERIF, ROOT = harness.VERIF, harness.ROOT

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    out = os.path.join(VERIF, 'out', pid); os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.remove(os.path.join(out, f))
    vres, hres = {}, {}
    def job(d, k, f): 
        def g():
            try: d[k] = f()
            except Exception as x: d[k] = x
        t = threading.Thread(target=g); t.start(); return t
    ts = []
    support = P.get('support', [])
    for i, s in enumerate(P.get('specs', []) + support):
        ts.append(job(vres, s, lambda s=s, i=i: verus.verify(ROOT, os.path.join(VERIF, 'props', s), out, f'{pid.lower()}_{i}', extra=('--smt-option', f'smt.random_seed={seed}') if tier == 'thorough' else ())))
    for h in P.get('harness', []):
        ts.append(job(hres, h['bin'], lambda h=h: harness.run(h['name'], h['bin'], seed, tier, h.get('gen'), ROOT, h.get('args', ()), h.get('env'))))
    for t in ts: t.join()
    kn = known.load().get(pid, {})
    lines, violation, replayf = [], None, os.path.join(out, 'replay.txt')
    rep = []
    undecided, failed = [], []
    for k, r in list(vres.items()):
        if isinstance(r, Exception): undecided.append(f'{k}: {type(r).__name__}: {r}'); vres.pop(k); continue
        print(f'{pid}: verus {k}: {r.status}, {r.obl} obligations discharged, {len(r.failed)} refused, {len(r.fns)} functions of /repo under contract, solver {r.solver_ms} ms')
        undecided += [f'{k}: {u}' for u in r.undecided]
        if k in support and r.status != 'PROVED':
            undecided.append(f'{k}: supporting contracts do not hold on this tree (decided by their own check): ' + ', '.join(sorted({f["fn"] for f in r.failed})))
            r.failed = []
        if r.status == 'FAILED' and k not in support: failed += r.failed
    concrete, seenk, herr = [], set(), []
    for k, r in list(hres.items()):
        if isinstance(r, Exception): herr.append(f'{k}: {r}'); hres.pop(k); continue
        print(f'{pid}: replay {k}: {r.status}, {r.cases} cases, {len(r.fails)} contract breaches{", " + r.note if r.note else ""}')
        if r.status != 'RAN': herr.append(f'{k}: {r.note}')
        for key, txt in r.fails:
            if key in kn:
                if key not in seenk: lines.append(f'KNOWN-FINDING: property={pid} {kn[key]}'); seenk.add(key)
            else: concrete.append((k, key, txt))
    for u in undecided: print(f'{pid}: UNDECIDED {u}')
    if failed or concrete:
        for f in failed: rep.append(f'FAILED OBLIGATION in {f["fn"]} ({f["where"]}): {f["message"]}\n  clause: {f["clause"]}\n{f["rendered"]}')
        for k, key, txt in concrete[:200]: rep.append(f'FAILING INPUT ({k}) [{key}]: {txt}')
        open(replayf, 'w').write('\n'.join(rep) + '\n')
        violation = f'VIOLATION property={pid} replay={replayf}' + ('' if concrete else ' no-failing-input-found')
    decided = bool(vres) and all(r.status == 'PROVED' for r in vres.values()) and not undecided
    lvl = P.get('level', 'proof')
    fns = [f'{f[1]} ({f[2]}:{f[3]})' for r in vres.values() for f in r.fns]
    trusted = sorted({t for r in vres.values() for t in r.trusted})
    cov = dict(
        obligations=sum(r.obl + r.errors for r in vres.values()), discharged=sum(r.obl for r in vres.values()),
        checker_cmd=' ; '.join(r.cmd for r in vres.values()) or 'none', backend='verus 0.2026.09.13 / Z3',
        verdict='violation' if violation else 'proved' if decided else 'undecided by the verifier, bounded replay only',
        functions_under_contract=fns, function_count=len(fns), solver_ms=sum(r.solver_ms for r in vres.values()),
        solver_ms_per_function={k: v for r in vres.values() for k, v in sorted(r.times.items(), key=lambda x: -x[1])[:12]},
        trusted_base=trusted + P.get('trusted', []), items_verbatim=[x for r in vres.values() for x in r.items],
        canary_functions=sum(len(r.canary_ok or []) for r in vres.values()),
        failed_obligations=[dict(fn=f['fn'], message=f['message'], clause=f['clause']) for f in failed], undecided=undecided,
        evaluations=sum(r.cases for r in hres.values()), distinct_nontrivial=sum(r.distinct for r in hres.values()),
        rule='; '.join(x for x in [r.rule for r in hres.values()] if x) or 'no replay harness', samples=[s for r in hres.values() for s in r.samples][:6],
        replay='bounded: runs the same contract on the compiled code of /repo; never counted as proved', replay_errors=herr,
        uncovered=P.get('uncovered', []))
    if not decided and lvl == 'proof' and not violation: lvl = 'other'; cov['explanation'] = 'this run did not discharge every obligation: ' + '; '.join(undecided)[:1500] + '; bounded replay ran instead'
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=P.get('assumptions', []) + ['extraction rules R1-R20 (vp/extract.py, listed in DESIGN.md) preserve the meaning of the functions', 'std / dependency contracts in props/*.rs marked external_body or uninterpreted'], wall_s=round(time.time() - t0, 2), violations=len(failed) + len(concrete))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    for f in failed: print(f'{pid}: obligation refused: {f["fn"]} {f["message"]}: {f["clause"]}')
    for k, key, txt in concrete[:5]: print(f'{pid}: failing input ({k}): {txt[:500]}')
    if violation: print(violation); return 1
    # nothing refuted it; but a run in which neither the verifier nor the replay gave an answer is an error
    if not decided and (herr or not hres): print(f'{pid}: no answer: {undecided} {herr}'); return 3
    print(f'{pid}: ok ({"proved" if decided else "bounded only"})')
    return 0
if __name__ == '__main__': sys.exit(main())
