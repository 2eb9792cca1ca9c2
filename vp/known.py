"""known_findings.txt:  known: property=<id> key=<key> <text>   |   fixed: property=<id> <commit> <text>"""
import os, re
def load(path='/verif/known_findings.txt'):
    out = {}
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
