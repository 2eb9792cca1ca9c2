"""Token-level Rust reader: lexing, item location and mechanical rewriting.

The verified text is cut out of /repo by this module on every run.  Nothing here
knows the *content* of a function; every rule is a mechanical token rewrite and is
listed in DESIGN.md ("what the extraction changes").
"""
import os, re

class Unsupported(Exception):
    """The current source has a shape the extraction cannot carry (undecided, never an alarm)."""

# ---------------------------------------------------------------- lexer
IDENT_START = re.compile(r'[A-Za-z_]')
IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?')
PUNCT3 = ('<<=', '>>=', '...', '..=')
PUNCT2 = ('::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '..')

class T:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return f'{self.k}:{self.s!r}'

def lex(src):
    """tokens incl. trivia ('ws','cmt')"""
    out, i, n = [], 0, len(src)
    def add(k, j):
        nonlocal i
        out.append(T(k, src[i:j], i, j)); i = j
    while i < n:
        c = src[i]
        if c.isspace():
            j = i + 1
            while j < n and src[j].isspace(): j += 1
            add('ws', j)
        elif src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            add('cmt', j)
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            add('cmt', j)
        elif re.match(r'(?:b|c|br|cr|r)?"|(?:r|br|cr)#+"', src[i:i+12]):
            m = re.match(r'(b|c)?(r)?(#*)"', src[i:i+40])
            j = i + m.end()
            if m.group(2):
                e = '"' + m.group(3)
                j = src.index(e, j) + len(e)
            else:
                while src[j] != '"': j += 2 if src[j] == '\\' else 1
                j += 1
            add('str', j)
        elif c == "'" or (c == 'b' and src.startswith("b'", i)):
            p = i + (2 if c == 'b' else 1)
            if src[p] == '\\':
                j = src.index("'", p + 2) + 1; add('chr', j)
            elif p + 1 < n and src[p + 1] == "'":
                add('chr', p + 2)
            else:
                m = IDENT.match(src, p); add('life', m.end() if m else p)
        elif IDENT_START.match(c):
            add('id', IDENT.match(src, i).end())
        elif c.isdigit():
            j = NUM.match(src, i).end()
            add('num', j)
        else:
            for ps, l in ((PUNCT3, 3), (PUNCT2, 2)):
                if src[i:i+l] in ps: add('p', i + l); break
            else: add('p', i + 1)
    return out

def sig(toks): return [t for t in toks if t.k not in ('ws', 'cmt')]
def text(toks): return ''.join(t.s for t in toks)

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(ts, i):
    d = 0
    for j in range(i, len(ts)):
        if ts[j].k == 'p':
            if ts[j].s in OPEN: d += 1
            elif ts[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Unsupported('unbalanced')

def match_open(ts, i):
    d = 0
    for j in range(i, -1, -1):
        if ts[j].k == 'p':
            if ts[j].s in CLOSE: d += 1
            elif ts[j].s in OPEN:
                d -= 1
                if d == 0: return j
    raise Unsupported('unbalanced')

def strip_comments(ts):
    """comments -> a single space/newline; keeps the rest verbatim"""
    out = []
    for t in ts:
        if t.k == 'cmt': out.append(T('ws', '\n' if t.s.startswith('//') else ' ', t.a, t.b))
        else: out.append(t)
    return out

# ---------------------------------------------------------------- items
class Item:
    def __init__(s, kind, name, toks, hdr_end, body, attrs, path, line, container=None):
        s.kind, s.name, s.toks, s.hdr_end, s.body, s.attrs = kind, name, toks, hdr_end, body, attrs
        s.path, s.line, s.container = path, line, container
    @property
    def src(s): return text(s.toks)

QUAL = {'pub', 'async', 'unsafe', 'const', 'extern', 'default'}

def parse_items(ts, path, src, container=None):
    """Split a token list (no trivia filtering) into items."""
    items, i, n = [], 0, len(ts)
    def skip(j):
        while j < n and ts[j].k in ('ws', 'cmt'): j += 1
        return j
    while True:
        i = skip(i)
        if i >= n: break
        attrs = []
        start = i
        while ts[i].s == '#':
            j = skip(i + 1)
            if ts[j].s == '!': j = skip(j + 1)
            e = match_close(ts, j)
            attrs.append(text(ts[i:e + 1])); i = skip(e + 1)
            if i >= n: return items
        istart = i
        # visibility / qualifiers
        while True:
            if ts[i].s == 'pub':
                i = skip(i + 1)
                if ts[i].s == '(': i = skip(match_close(ts, i) + 1)
            elif ts[i].s in ('async', 'unsafe', 'default'): i = skip(i + 1)
            elif ts[i].s == 'extern' and ts[skip(i + 1)].k == 'str': i = skip(skip(i + 1) + 1)
            elif ts[i].s == 'const' and ts[skip(i + 1)].s in ('fn', 'unsafe', 'async'): i = skip(i + 1)
            else: break
        kw = ts[i].s
        line = src.count('\n', 0, ts[istart].a) + 1
        if kw in ('fn', 'struct', 'enum', 'trait', 'mod', 'const', 'static', 'type', 'union', 'use', 'extern'):
            j = skip(i + 1)
            if kw == 'static' and ts[j].s == 'mut': j = skip(j + 1)
            name = ts[j].s
        elif kw == 'impl':
            name = None; j = i
        elif kw == 'macro_rules':
            j = skip(i + 1); j = skip(j + 1); name = ts[j].s
        elif ts[i].k == 'id' and ts[skip(i+1)].s in ('!', '::'):
            # item macro invocation, e.g. metric! { .. } / thread_local!
            name = kw; kw = 'macro'; j = i
        else:
            raise Unsupported(f'item at {path}:{line}: {kw}')
        # find end: first '{' at depth 0 (body) or ';'
        k, d, body, end, hdr = j, 0, None, None, None
        eq = False
        while k < n:
            s = ts[k].s if ts[k].k == 'p' else None
            if s in ('(', '['): k = match_close(ts, k)
            elif s == '=' and kw in ('const', 'static', 'type'): eq = True
            elif s == '{':
                e = match_close(ts, k)
                if eq or kw == 'use': k = e
                else: hdr, body, end = k, (k, e), e; break
            elif s == ';': hdr, end = k, k; break
            k += 1
        if end is None: raise Unsupported(f'item end {path}:{line}')
        if kw == 'impl':
            h = sig(ts[i:hdr]); name = norm_impl(h)
        elif kw == 'macro' and body and end + 1 < n:
            pass
        items.append(Item(kw, name, ts[istart:end + 1], hdr - istart, None if body is None else (body[0] - istart, body[1] - istart), attrs, path, line, container))
        i = end + 1
    return items

def norm_impl(h):
    """'impl<'a> Trait<X> for Type<'a>' -> 'Trait for Type' / 'Type' (generic args dropped)"""
    out, d = [], 0
    for t in h[1:]:
        if t.s == '<': d += 1; continue
        if t.s == '>': d -= 1; continue
        if t.s == '>>': d -= 2; continue
        if d: continue
        if t.s == 'where': break
        if t.k == 'life' or t.s in ('&',): continue
        out.append(t.s)
    return ' '.join(out).replace(' :: ', '::')

def inner_items(it):
    a, b = it.body
    return parse_items(it.toks[a + 1:b], it.path, it.fullsrc if hasattr(it, 'fullsrc') else '', it)

class Source:
    """One file of /repo with its items (test modules dropped)."""
    def __init__(s, root, rel):
        s.rel = rel
        p = os.path.join(root, rel)
        try: s.text = open(p).read()
        except OSError as e: raise Unsupported(f'lost file {rel}: {e}')
        s.toks = lex(s.text)
        s.items = []
        s._walk(parse_items(s.toks, rel, s.text), '')
    def _walk(s, items, prefix, container=None):
        for it in items:
            it.fullsrc = s.text
            if any('cfg(test)' in re.sub(r'\s', '', a) for a in it.attrs): continue
            it.q = prefix + (it.name or '')
            it.prefix = prefix
            it.container = container
            s.items.append(it)
            if it.kind == 'mod' and it.body:
                s._walk(_sub(it, s), it.q + '::')
            elif it.kind in ('impl', 'trait') and it.body:
                s._walk(_sub(it, s), prefix + ('<' + it.name + '>::' if ' for ' in it.name else it.name + '::'), it)
            elif it.kind == 'fn' and it.body:
                s._walk(_local_impls(it, s), it.q + '/')
    def find(s, q, kind=None):
        r = [it for it in s.items if it.q == q and (kind is None or it.kind == kind)]
        return r

def _local_impls(it, s):
    """impl blocks written inside a function body (between its statements)"""
    ts = it.toks[it.body[0] + 1:it.body[1]]
    out, i, prev = [], 0, None
    while i < len(ts):
        t = ts[i]
        if t.k in ('ws', 'cmt'): i += 1; continue
        if t.s == 'impl' and (prev is None or prev in (';', '}')):
            j = i
            while ts[j].s != '{': j += 1
            e = match_close(ts, j)
            out += parse_items(ts[i:e + 1], it.path, s.text); i, prev = e + 1, '}'; continue
        if t.k == 'p' and t.s in OPEN: i, prev = match_close(ts, i) + 1, OPEN[t.s]; continue
        prev = t.s; i += 1
    return out

def _sub(it, s):
    a, b = it.body
    return parse_items(it.toks[a + 1:b], it.path, s.text)

# ---------------------------------------------------------------- expression helpers (significant tokens)
def split_args(ts):
    """split significant tokens at top-level commas (respecting closures' |a, b| and <> in turbofish)"""
    out, cur, i = [], [], 0
    n = len(ts)
    while i < n:
        t = ts[i]
        if t.k == 'p' and t.s in OPEN:
            e = match_close(ts, i); cur += ts[i:e + 1]; i = e + 1; continue
        if t.k == 'p' and t.s == '|' and (not cur or cur[-1].s in ('move', '(', ',', '=')):
            j = i + 1
            while ts[j].s != '|': j += 1
            cur += ts[i:j + 1]; i = j + 1; continue
        if t.k == 'p' and t.s == ',':
            out.append(cur); cur = []; i += 1; continue
        cur.append(t); i += 1
    if cur: out.append(cur)
    return out

def jt(ts):
    """join significant tokens; only whitespace differs from the source"""
    out = []
    for t in ts:
        out.append(t.s)
        out.append('\n' if t.s in (';', '{', '}') else ' ')
    return ''.join(out)

def raw(s, k='raw'):
    return T(k, s, 0, 0)

def receiver_start(ts, dot):
    """index of the first token of the postfix expression that ends just before ts[dot] == '.'"""
    i = dot - 1
    while True:
        t = ts[i]
        if t.k == 'p' and t.s == '?': i -= 1; continue
        if t.k == 'p' and t.s in (')', ']', '}'):
            o = match_open(ts, i)
            p = ts[o - 1] if o > 0 else None
            if t.s == ')' and p is not None and (p.k in ('id',) and p.s not in ('match', 'if', 'in', 'return', 'else', 'while', 'let', 'mut', 'move', 'ref') or p.s == '>'):
                i = o - 1; continue
            if t.s == ')' and p is not None and p.s == '!' : i = o - 2; continue
            if t.s == ']' and p is not None and p.k == 'p' and p.s == '!': i = o - 2; continue
            if t.s == ']' and p is not None and (p.k == 'id' or p.s in (')', ']')) and p.s not in ('return', 'in', '=', 'mut'):
                i = o - 1; continue
            if t.s == '}': 
                # struct literal / block / match: refuse unless a plain block or raw
                if p is not None and p.k == 'id': raise Unsupported('receiver is a block-like expression')
            i = o
            start = o
        elif t.s == '>':
            # turbofish  path::<T>
            d = 0
            while True:
                if ts[i].s == '>': d += 1
                elif ts[i].s == '>>': d += 2
                elif ts[i].s == '<': d -= 1
                if d == 0: break
                i -= 1
            i -= 1   # '::'
            if ts[i].s != '::': raise Unsupported('generic receiver')
            i -= 1
            continue
        elif t.k in ('id', 'num', 'str', 'chr', 'raw', 'life'):
            start = i
        else:
            raise Unsupported(f'receiver shape near {t.s!r}')
        # extend left over '.', '::'
        if start > 0 and ts[start - 1].k == 'p' and ts[start - 1].s in ('.', '::') and start > 1:
            i = start - 2; continue
        return start
