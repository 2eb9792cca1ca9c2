#!/usr/bin/env python3
"""Pre-builds the replay harnesses so that every check starts warm.  A harness that does not build is left to its check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
from props import PROPS
seen = {}
for i, P in PROPS.items():
    for h in P.get('harness', []):
        g = h.get('gen')
        try: g = g(harness.ROOT) if callable(g) else g
        except Exception as x: print(i, x); continue
        k = (h['name'], h['bin'])
        if k in seen: continue
        rc, exe, log = harness.build(h['name'], h['bin'], g)
        seen[k] = rc
        print(i, h['bin'], 'built' if rc == 0 else log[-600:])
