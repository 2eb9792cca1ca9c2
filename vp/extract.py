"""Cuts items out of /repo, applies the mechanical rewrites R1..R9 and weaves contracts in.

Spec template syntax (props/<id>/spec.rs), everything else is copied verbatim:

    //@item <file> <Qualified::name>           type / const item, attributes and derives dropped
    //@fn <file> <Qualified::name> [key=value ...]
    //@ret <name>                              name of the result in the postcondition
    //@spec                                    requires / ensures / decreases clauses follow
    //@loop <k> [iter=<name>]                  clauses for the k-th loop follow
    //@body <k>                                ghost text at the start of the k-th loop's body follows
    //@start                                   ghost text at the start of the body follows
    //@finish                                ghost text after the body's value (named by //@ret) is computed
    //@before <text>                           ghost text before the statement that contains <text>
    //@sub <tokens> ==> <tokens>               type-level token substitution (R7), must match
    //@sub? <tokens> ==> <tokens>              same, may be absent
    //@end
"""
import os, re
from rsx import *

class Lost(Unsupported): pass

_cache = {}
def source(root, rel):
    k = (root, rel)
    if k not in _cache: _cache[k] = Source(root, rel)
    return _cache[k]

def crate_files(root, rel):
    m = re.match(r'(crates/[^/]+)/src/', rel)
    base = os.path.join(root, m.group(1), 'src')
    out = []
    for d, _, fs in os.walk(base):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith('.rs')]
    return sorted(out)

def find_item(root, rel, q, kinds=None):
    """the item named q: in its file, else anywhere in its crate (moved), else lost"""
    def look(r):
        try: src = source(root, r)
        except Unsupported: return []
        return [it for it in src.items if it.q == q and it.kind not in ('use', 'mod') and (kinds is None or it.kind in kinds)]
    r = look(rel)
    if not r and os.path.isdir(os.path.join(root, rel.split('/src/')[0])):
        for f in crate_files(root, rel):
            if f != rel: r += look(f)
        if not r:
            last = q.split('::')[-1]
            for f in crate_files(root, rel):
                try: s = source(root, f)
                except Unsupported: continue
                r += [it for it in s.items if it.q.split('::')[-1] == last and it.kind == 'fn' and ('::' in q) == (it.container is not None) and '<' not in it.q and '<' not in q and q.split('::')[-2:] == it.q.split('::')[-2:]]
    r = [it for it in r if not any(re.search(r'cfg\s*\(\s*(test|windows|feature)', a) for a in it.attrs)]
    if len(r) != 1: raise Lost(f'lost anchor: {rel} {q} ({len(r)} matches)')
    return r[0]

# ------------------------------------------------------------------ rewriting
DROP_MACROS = {'tracing', 'metric', 'sentry', 'debug_assert', 'debug_assert_eq', 'log', 'eprintln', 'println'}

def drop_macro_stmts(ts):
    """R2: logging / metric statements"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        at_stmt = i == 0 or (ts[i-1].k == 'p' and ts[i-1].s in (';', '{', '}', '=>'))
        if at_stmt and t.k == 'id' and t.s in DROP_MACROS:
            j = i + 1
            while j < len(ts) and (ts[j].s == '::' or ts[j].k == 'id'): j += 1
            if j < len(ts) and ts[j].s == '!':
                e = match_close(ts, j + 1)
                arrow = ts[i-1].s == '=>' if i else False
                if arrow: out += [raw('{'), raw('}')]
                i = e + 1
                if i < len(ts) and ts[i].s == ';': i += 1
                continue
        out.append(t); i += 1
    return out

FMT = {'': 'vp_push', 'x': 'vp_push_lx', 'X': 'vp_push_ux', '02x': 'vp_push_02lx', '02X': 'vp_push_02ux', '#x': 'vp_push_alx', '?': 'vp_push_dbg'}

def expand_format(lit, args, dest):
    """R3: push sequence for a format string; dest is an identifier of type String"""
    m = re.match(r'(r?)(#*)"(.*)"\2$', lit, re.S)
    if not m: raise Unsupported('format literal')
    body, israw = m.group(3), bool(m.group(1))
    out, i, lastlit, nxt = [], 0, '', 0
    named, pos = {}, []
    for a in args:
        if len(a) > 2 and a[0].k == 'id' and a[1].s == '=': named[a[0].s] = a[2:]
        else: pos.append(a)
    def flush():
        nonlocal lastlit
        if lastlit: out.append(f'{dest}.push_str("{lastlit}");' if not israw else f'{dest}.push_str(r{m.group(2)}"{lastlit}"{m.group(2)});')
        lastlit = ''
    while i < len(body):
        c = body[i]
        if body.startswith('{{', i): lastlit += '{'; i += 2; continue
        if body.startswith('}}', i): lastlit += '}'; i += 2; continue
        if c == '\\' and not israw:
            if body[i+1] == '\n':
                i += 2
                while i < len(body) and body[i].isspace(): i += 1
                continue
            if body[i+1] == 'u':
                e = body.index('}', i); lastlit += body[i:e+1]; i = e + 1; continue
            lastlit += body[i:i+2]; i += 2; continue
        if c == '{':
            e = body.index('}', i)
            inner = body[i+1:e]; i = e + 1
            name, _, spec = inner.partition(':')
            name = name.strip(); spec = spec.strip()
            pad = re.match(r'0>?(\d+)$', spec)
            if spec not in FMT and not pad: raise Unsupported(f'format spec {spec!r}')
            flush()
            if name == '':
                if nxt >= len(pos): raise Unsupported('format args')
                ex = jt(pos[nxt]); nxt += 1
            elif name.isdigit(): ex = jt(pos[int(name)])
            elif name in named: ex = jt(named[name])
            else: ex = name
            if spec not in FMT: out.append(f'({ex}).vp_pad0(&mut {dest}, {pad.group(1)});' if dest == 'vp_o' else f'({ex}).vp_pad0({dest}, {pad.group(1)});'); continue
            out.append(f'({ex}).{FMT[spec]}(&mut {dest});' if dest == 'vp_o' else f'({ex}).{FMT[spec]}({dest});')
            continue
        lastlit += c; i += 1
    flush()
    return ' '.join(out)

def lexs(s): return sig(lex(s))

def rw_format(ts):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'id' and t.s == 'format' and i + 1 < len(ts) and ts[i+1].s == '!':
            e = match_close(ts, i + 2)
            args = split_args(rw_format(ts[i+3:e]))
            out += lexs('{ let mut vp_o = vp_new_string(); ' + expand_format(args[0][0].s, args[1:], 'vp_o') + ' vp_o }')
            i = e + 1; continue
        if t.k == 'id' and t.s in ('write', 'writeln') and i + 1 < len(ts) and ts[i+1].s == '!':
            e = match_close(ts, i + 2)
            args = split_args(rw_format(ts[i+3:e]))
            lit = args[1][0].s if len(args) > 1 else '""'
            if t.s == 'writeln': lit = lit[:-1] + '\\n"'
            out += lexs('{ let mut vp_o = vp_new_string(); ' + expand_format(lit, args[2:], 'vp_o') + f' ({jt(args[0])}).vp_write_fmt(&vp_o) }}')
            i = e + 1; continue
        if t.s == '.' and i + 4 < len(ts) and ts[i+1].s == 'write_fmt' and ts[i+3].s == 'format_args' and ts[i+4].s == '!':
            e = match_close(ts, i + 5)
            args = split_args(rw_format(ts[i+6:e]))
            st = receiver_start(out + lexs('.'), len(out)); rec = out[st:]; del out[st:]
            out += lexs('({ let mut vp_o = vp_new_string(); ' + expand_format(args[0][0].s, args[1:], 'vp_o') + ' ') + rec + lexs('.vp_write_fmt(&vp_o) })')
            i = match_close(ts, i + 2) + 1; continue
        out.append(t); i += 1
    return out

def rw_anyhow(ts):
    """R13: anyhow!(..) -> vp_err(), bail!(..) -> return Err(vp_err()), ensure!(c, ..) -> if !(c) { return Err(vp_err()) }: the message is dropped"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'id' and t.s in ('anyhow', 'bail', 'ensure'):
            j = i
            if t.s == 'anyhow' and j + 2 < len(ts) and ts[j+1].s == '::' and ts[j+2].s in ('bail', 'ensure', 'anyhow'): j += 2
            if j + 2 < len(ts) and ts[j+1].s == '!':
                e = match_close(ts, j + 2); m = ts[j].s
                if m == 'anyhow': out += lexs('vp_err()')
                elif m == 'bail': out += lexs('return Err(vp_err())')
                else: out += lexs('if !(') + rw_anyhow(split_args(ts[j+3:e])[0]) + lexs(') { return Err(vp_err()); }')
                i = e + 1
                if m == 'ensure' and i < len(ts) and ts[i].s == ';': i += 1
                continue
        out.append(t); i += 1
    return out

def rw_async_blocks(ts):
    """R19: Box::pin(async { B }) and async { B } -> { B }: an async block is evaluated where it is written"""
    out, i = [], 0
    while i < len(ts):
        s = [t.s for t in ts[i:i+5]]
        if s == ['Box', '::', 'pin', '(', 'async']:
            e = match_close(ts, i + 3); j = i + 5 + (ts[i+5].s == 'move')
            if ts[j].s == '{' and match_close(ts, j) == e - 1: out += rw_async_blocks(ts[j:e]); i = e + 1; continue
        if s[:1] == ['async']:
            j = i + 1 + (len(s) > 1 and s[1] == 'move')
            if j < len(ts) and ts[j].s == '{':
                e = match_close(ts, j); out += rw_async_blocks(ts[j:e+1]); i = e + 1; continue
        out.append(ts[i]); i += 1
    return out

def rw_join_all(ts):
    """R20: let q = X.into_iter().map(C); .. future::join_all(q) -> let q = X.into_iter().map(C).collect(); .. q: the futures of a join_all
    are evaluated where they are written, in order"""
    ts = list(ts)
    i = 0
    while i < len(ts) - 6:
        if [t.s for t in ts[i:i+4]] == ['future', '::', 'join_all', '('] and ts[i+4].k == 'id' and ts[i+5].s == ')':
            nm = ts[i+4].s
            for j in range(i - 1, -1, -1):
                if ts[j].s == 'let' and ts[j+1].s == nm and ts[j+2].s == '=': break
            else: raise Unsupported('join_all')
            k = j + 3
            while ts[k].s != ';': k = match_close(ts, k) + 1 if ts[k].s in OPEN else k + 1
            ts = ts[:k] + lexs('.collect()') + ts[k:i] + [ts[i+4]] + ts[i+6:]
        i += 1
    return ts

def rw_local_macros(ts):
    """R17: a macro_rules! of one arm with one $x:expr, defined in the body, is expanded at its uses"""
    i = 0
    while i < len(ts) - 3:
        if ts[i].s == 'macro_rules' and ts[i+1].s == '!':
            name = ts[i+2].s; e = match_close(ts, i + 3); arm = ts[i+4:e]
            pe = match_close(arm, 0); pat = [t.s for t in arm[1:pe]]
            if len(pat) != 4 or pat[0] != '$' or pat[2:] != [':', 'expr'] or arm[pe+1].s != '=>': raise Unsupported(f'macro {name}: more than one $x:expr')
            be = match_close(arm, pe + 2); body = arm[pe+3:be]
            if any(t.s != ';' for t in arm[be+1:]): raise Unsupported(f'macro {name}: several arms')
            rest = ts[e+1:]
            if rest and rest[0].s == ';': rest = rest[1:]
            def exp(x):
                out, k = [], 0
                while k < len(x):
                    if x[k].s == name and k + 2 < len(x) and x[k+1].s == '!':
                        c = match_close(x, k + 2); arg = exp(x[k+3:c]); b, m = [], 0
                        while m < len(body):
                            if body[m].s == '$' and body[m+1].s == pat[1]: b += lexs('(') + arg + lexs(')'); m += 2
                            else: b.append(body[m]); m += 1
                        out += lexs('(') + b + lexs(')'); k = c + 1; continue
                    out.append(x[k]); k += 1
                return out
            ts = ts[:i] + exp(rest); continue
        i += 1
    return ts

def rw_matches_str(ts):
    """R16: matches!(x, "a" | "b") over text literals -> (x == "a" || x == "b")"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == 'matches' and i + 2 < len(ts) and ts[i+1].s == '!' and ts[i+2].s == '(':
            e = match_close(ts, i + 2); a = split_args(ts[i+3:e])
            if len(a) >= 2 and a[1] and all(t.k == 'str' if n % 2 == 0 else t.s == '|' for n, t in enumerate(a[1])):
                r = []
                for t in a[1][::2]: r += (lexs('||') if r else []) + a[0] + lexs('==') + [t]
                out += lexs('(') + r + lexs(')'); i = e + 1; continue
        out.append(ts[i]); i += 1
    return out

# R4: std methods without a vstd contract -> prelude extension methods of the same meaning
RENAME = {m: 'vp_' + m for m in '''to_lowercase to_uppercase make_ascii_lowercase make_ascii_uppercase eq_ignore_ascii_case
starts_with ends_with strip_suffix strip_prefix rfind find truncate pop split_once rsplit_once splitn split trim parse
breakpad as_simple appendix uuid as_bytes to_string lines rsplit trim_matches trim_start_matches trim_end_matches
contains into_boxed_str write_all flush next_back checked_add checked_sub saturating_sub saturating_add elapsed
duration_since is_symlink file_name extension to_ascii_lowercase to_ascii_uppercase is_alphanumeric div_ceil is_control repeat replace'''.split()}

def rw_slices(ts):
    """R6: str::get(..n), get(n..), [..n], [n..] and Option::into_iter().collect()"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == '.' and i + 2 < len(ts) and ts[i+1].s == 'get' and ts[i+2].s == '(':
            e = match_close(ts, i + 2); a = ts[i+3:e]
            if a and a[0].s == '..': out += lexs('.get_to(') + rw_slices(a[1:]) + lexs(')'); i = e + 1; continue
            dd = [k for k, t in enumerate(a) if t.s == '..']
            if len(dd) == 1 and 0 < dd[0] < len(a) - 1 and not any(t.s in ('(', '[', '{', '|') for t in a): out += lexs('.get_range(') + a[:dd[0]] + lexs(',') + a[dd[0]+1:] + lexs(')'); i = e + 1; continue
            if a and a[-1].s == '..': out += lexs('.get_from(') + rw_slices(a[:-1]) + lexs(')'); i = e + 1; continue
        if ts[i].s == '[' and i > 0 and (ts[i-1].k == 'id' and ts[i-1].s not in ('mut', 'in', 'return') or ts[i-1].s in (')', ']')):
            e = match_close(ts, i); a = ts[i+1:e]
            r = None
            if a and a[0].s == '..' and len(a) > 1: r = lexs('.slice_to(') + rw_slices(a[1:]) + lexs(')')
            elif a and a[-1].s == '..' and len(a) > 1: r = lexs('.slice_from(') + rw_slices(a[:-1]) + lexs(')')
            elif len(a) == 3 and a[1].s == '..=': r = lexs('.slice_incl(') + a[:1] + lexs(',') + a[2:] + lexs(')')
            elif len(a) == 3 and a[1].s == '..': r = lexs('.slice_range(') + a[:1] + lexs(',') + a[2:] + lexs(')')
            if r:
                # drop the leading & of the place expression
                j = len(out)
                try: st = receiver_start(out + lexs('.'), len(out))
                except Unsupported: st = None
                if st is not None and st > 0 and out[st-1].s == '&': del out[st-1]
                out += r; i = e + 1; continue
        out.append(ts[i]); i += 1
    p = [x.s for x in lexs('.into_iter().collect()')]
    i = 0
    while i < len(out):
        if [x.s for x in out[i:i+len(p)]] == p:
            st = receiver_start(out, i)
            out = out[:st] + lexs('vp_opt_vec(') + out[st:i] + lexs(')') + out[i+len(p):]
        i += 1
    p = [x.s for x in lexs('.then_some(')]
    i = 0
    while i < len(out):
        if [x.s for x in out[i:i+len(p)]] == p:
            st = receiver_start(out, i); e = match_close(out, i + 2)
            out = out[:st] + lexs('(if ') + out[st:i] + lexs('{ Some(') + out[i+3:e] + lexs(') } else { None })') + out[e+1:]
        i += 1
    return out

def rw_iter_mut(ts):
    """R8: for P in X.iter_mut() { B }  ->  counted loop over &mut X[i]"""
    i, cnt = 0, 0
    while i < len(ts):
        if ts[i].k == 'id' and ts[i].s == 'for':
            j = i + 1
            while ts[j].s not in ('in', '{', '<'): j = match_close(ts, j) + 1 if ts[j].s in OPEN else j + 1
            if ts[j].s == 'in':
                k = j + 1
                while ts[k].s != '{': k = match_close(ts, k) + 1 if ts[k].s in ('(', '[') else k + 1
                ex = ts[j+1:k]
                if [t.s for t in ex[-4:]] == ['.', 'iter_mut', '(', ')'] or [t.s for t in ex[:2]] == ['&', 'mut']:
                    x = ex[:-4] if ex[-2].s == '(' else ex[2:]
                    e = match_close(ts, k)
                    n = f'vp_i{cnt}'; cnt += 1
                    ts = ts[:i] + lexs(f'let mut {n}: usize = 0; let {n}_n: usize =') + x + lexs(f'.len(); while {n} < {n}_n {{ let ') + ts[i+1:j] + lexs('= &mut') + x + lexs(f'[{n}]; {n} = {n} + 1;') + ts[k+1:e] + ts[e:]
                elif [t.s for t in ex[-8:]] == ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')']:
                    x = ex[:-8]
                    e = match_close(ts, k)
                    n = f'vp_i{cnt}'; cnt += 1
                    pat = ts[i+1:j]
                    if pat[0].s != '(' or pat[2].s != ',': raise Unsupported('enumerate pattern')
                    ts = ts[:i] + lexs(f'let mut {n}: usize = 0; while {n} <') + x + lexs(f'.len() {{ let ') + [pat[1]] + lexs(f'= {n}; let ') + pat[3:-1] + lexs('= &') + x + lexs(f'[{n}]; {n} = {n} + 1;') + ts[k+1:e] + ts[e:]
        i += 1
    return ts

ADAPT = {'map', 'filter', 'flat_map', 'filter_map', 'cloned', 'copied', 'skip_while', 'take_while', 'enumerate'}
def unreturn(b):
    """R24: in the body of a closure, { S.. if C { T.. return E; } U.. } -> { S.. if C { T.. E } else { U.. } }"""
    if not any(t.s == 'return' for t in b) or b[0].s != '{' or match_close(b, 0) != len(b) - 1: return b
    i, start = 1, 1
    while i < len(b) - 1:
        if b[i].s == 'if' and i == start and b[i+1].s != 'let':
            k = i + 1
            while b[k].s != '{': k = match_close(b, k) + 1 if b[k].s in ('(', '[') else k + 1
            e = match_close(b, k); blk = b[k+1:e]
            if b[e+1].s != 'else' and blk and blk[-1].s == ';':
                # the last statement of the block
                j, d, last = 0, 0, 0
                while j < len(blk) - 1:
                    if blk[j].s in OPEN: j = match_close(blk, j); last = j + 1 if blk[j].s == '}' and blk[j+1].s not in ('.', '?', 'else', ';') else last
                    elif blk[j].s == ';': last = j + 1
                    j += 1
                if blk[last].s == 'return' and not any(t.s == 'return' for t in blk[:last]):
                    rest = unreturn(lexs('{') + b[e+1:-1] + lexs('}'))
                    return b[:k+1] + blk[:last] + blk[last+1:-1] + lexs('} else') + rest + b[-1:]
        if b[i].s in OPEN:
            i = match_close(b, i) + 1
            if b[i-1].s == '}': start = i
            continue
        if b[i].s == ';': start = i + 1
        i += 1
    return b
def rw_fold_reduce(ts):
    """R26: X.par_bridge().try_fold(ID, F).try_reduce(ID, R)?  ->  for loop over X that ends its group of elements and starts a new one wherever it likes (vp_any)"""
    for i in range(len(ts) - 3):
        if ts[i].s == '.' and ts[i+1].s in ('par_bridge', 'into_par_iter', 'into_iter') and ts[i+2].s == '(' and ts[i+3].s == ')' and ts[i+4].s == '.' and ts[i+5].s == 'try_fold':
            e = match_close(ts, i + 6)
            if [t.s for t in ts[e+1:e+3]] != ['.', 'try_reduce']: continue
            e2 = match_close(ts, e + 3)
            if ts[e2+1].s != '?': continue
            fa, ra = split_args(ts[i+7:e]), split_args(ts[e+4:e2])
            f, r = closure(fa[1]), closure(ra[1])
            if not f or not r: continue
            par = lambda c: split_args(c[0])
            fp, rp = par(f), par(r)
            bare = lambda b: b[next(k for k, t in enumerate(b) if t.s == '{'):] if b[0].s == '->' else b
            fb, rb = unreturn(bare(f[1])), bare(r[1])
            if any(t.s == 'return' for t in fb + rb) or len(fp) != 2 or len(rp) != 2: raise Unsupported('fold with early exit')
            st = receiver_start(ts, i)
            L = lexs
            ty = (L(':') + f[1][1:next(k for k, t in enumerate(f[1]) if t.s == '{')]) if f[1][0].s == '->' else []
            red = L('let vp_a = vp_acc; let vp_b = vp_grp; let') + rp[0] + L('= vp_a; let') + rp[1] + L('= vp_b; let vp_r') + ty + L('=') + rb + L('; vp_acc = vp_r?;')
            new = L('{ let mut vp_acc = (') + ra[0] + L(')(); let mut vp_grp = (') + fa[0] + L(')(); for vp_x in') + ts[st:i] + L('{ if vp_any() {') + red + L('vp_grp = (') + fa[0] + L(')(); } let vp_g = vp_grp; let') + fp[0] + L('= vp_g; let') + fp[1] + L('= vp_x; let vp_r') + ty + L('=') + fb + L('; vp_grp = vp_r?; }') + red + L('vp_acc }')
            return rw_fold_reduce(ts[:st] + new + ts[e2+2:])
    return ts
def rw_iters(ts, names, lazy):
    """R28: ranges and calls of the named functions (which return an iterator) begin a pipeline like into_iter() does; in a function that returns `impl Iterator` (taken as the Vec of its elements) a chain that ends in an adaptor is collected; collect::<Result<_, _>>()? stops at the first error"""
    i = 0
    while i < len(ts) - 2:
        if ts[i].s == '.' and ts[i+1].s in (*ADAPT, 'find_map', 'any', 'all') and ts[i+2].s == '(' and i > 0 and (ts[i-1].s == ')' or ts[i-1].s == '?'):
            c = i - 1 if ts[i-1].s == ')' else i - 2
            d, o = 0, c
            while True:
                if ts[o].s in (')', ']', '}'): d += 1
                elif ts[o].s in OPEN: d -= 1
                if d == 0: break
                o -= 1
            rng = ts[i-1].s == ')' and any(t.s in ('..', '..=') for t in ts[o+1:c]) and (o == 0 or ts[o-1].k != 'id' or ts[o-1].s in ('in', 'return'))
            if rng or (o > 0 and ts[o-1].s in names): ts = ts[:i] + lexs('.into_iter()') + ts[i:]; i += 4
        i += 1
    if lazy:
        i = 0
        while i < len(ts) - 2:
            if ts[i].s == '.' and ts[i+1].s in ADAPT and ts[i+2].s == '(':
                e = match_close(ts, i + 2)
                if (e + 1 >= len(ts) or ts[e+1].s not in ('.', '?')) and any(t.s in ('iter', 'into_iter') for t in ts[receiver_start(ts, i):i]): ts = ts[:e+1] + lexs('.collect()') + ts[e+1:]
            i += 1
    return ts
def rw_pipeline(ts):
    """R9: X.into_iter()/iter() . map/filter/flat_map/filter_map/skip_while/take_while(closure)* . collect()/sum()/find_map()/rposition()/any()/all()  ->  for loop"""
    i = 0
    while i < len(ts) - 3:
        if ts[i].s == '.' and (ts[i+1].s in ('collect', 'sum') and ts[i+2].s in ('(', '::') or ts[i+1].s in ('find_map', 'rposition', 'any', 'all') and ts[i+2].s == '('):
            term = ts[i+1].s
            try: st = receiver_start(ts, i)
            except Unsupported: i += 1; continue
            e = i + 2
            results = False
            if ts[e].s == '::':
                results = term == 'collect' and ts[e+2].s == 'Result'
                while ts[e].s != '(': e += 1
            e = match_close(ts, e)
            if results:
                if e + 1 >= len(ts) or ts[e+1].s != '?': raise Unsupported('collect of results without ?')
            # split the chain of the receiver into its segments
            ch, k, segs = ts[st:i], 0, []
            dots = []
            while k < len(ch):
                if ch[k].s in OPEN: k = match_close(ch, k) + 1; continue
                if ch[k].s == '.': dots.append(k)
                k += 1
            parts = [ch[a+1:b] for a, b in zip(dots, dots[1:] + [len(ch)])]
            it = [n for n, p in enumerate(parts) if p[0].s in ('iter', 'into_iter', 'iter_mut')]
            if it and (it[-1] < len(parts) - 1 or term in ('find_map', 'rposition', 'any', 'all')) and all(p[0].s in ADAPT for p in parts[it[-1]+1:]):
                src = ch[:dots[it[-1]]] if parts[it[-1]][0].s == 'into_iter' else ch[:dots[it[-1]]] + lexs('.iter()')
                body, tail, pre = [], [], []
                mut = parts[it[-1]][0].s == 'iter_mut'
                if mut and term in ('find_map', 'rposition', 'sum', 'any', 'all'): raise Unsupported(f'{term} over iter_mut')
                if term == 'rposition':
                    c = closure(ts[i+3:e])
                    if it[-1] != len(parts) - 1: raise Unsupported('rposition after an adaptor')
                    pat, b = (strip_ty(c[0]), c[1]) if c else (lexs('vp_y'), ts[i+3:e] + lexs('(vp_y)'))
                    if has_escape(b): raise Unsupported('rposition closure with early exit')
                    new = lexs('{ let vp_r =') + ch[:dots[it[-1]]] + lexs('; let mut vp_acc: Option<usize> = None; let mut vp_n: usize = vp_r.len(); while vp_n > 0 && vp_acc.is_none() { vp_n = vp_n - 1; let') + pat + lexs('= &vp_r[vp_n]; let vp_c =') + b + lexs('; if vp_c { vp_acc = Some(vp_n); } } vp_acc }')
                    ts = ts[:st] + new + ts[e+1:]
                    continue
                cur, enum = lexs('vp_p'), False
                for p in parts[it[-1]+1:]:
                    m = p[0].s
                    if m in ('cloned', 'copied'): body += lexs('let vp_p = vp_p.clone();'); continue
                    if m == 'enumerate':
                        if parts[it[-1]+1] is not p: raise Unsupported('enumerate after another adaptor')
                        if mut: enum = True; continue
                        pre += lexs('let mut vp_e: usize = 0;'); body += lexs('let vp_p = (vp_e, vp_p); vp_e = vp_e + 1;'); continue
                    c = closure(p[2:-1])
                    pat, b = (strip_ty(c[0]), c[1]) if c else (lexs('vp_y'), p[2:-1] + lexs('(vp_y)'))
                    b = unreturn(b)
                    if mut:
                        # the first adaptor takes the reference; a pair with the index is taken apart
                        if parts[it[-1]+1+enum] is not p or m not in ('map', 'filter_map'): raise Unsupported('adaptors over iter_mut')
                        x = ch[:dots[it[-1]]]
                        if enum:
                            if pat[0].s != '(' or pat[2].s != ',' : raise Unsupported('enumerate pattern over iter_mut')
                            body += lexs('let') + [pat[1]] + lexs('= vp_e;'); pat = [t for t in pat[3:-1] if t.s != ',']
                        body += lexs('let') + pat + lexs('= &mut') + x + lexs('[vp_e];')
                        if has_escape(b): raise Unsupported('pipeline closure with early exit')
                        body += lexs('let vp_m =' if m == 'filter_map' else 'let vp_p =') + b + lexs(';')
                        if m == 'filter_map': body += lexs('if let Some(vp_p) = vp_m {'); tail = lexs('}') + tail
                        continue
                    if has_escape(b): raise Unsupported('pipeline closure with early exit')
                    if m == 'map': body += lexs('let') + pat + lexs('= vp_p; let vp_p =') + b + lexs(';')
                    elif m == 'filter': body += lexs('let vp_c = { let') + pat + lexs('= &vp_p;') + b + lexs('}; if vp_c {'); tail = lexs('}') + tail
                    elif m == 'skip_while': pre += lexs('let mut vp_skip = true;'); body += lexs('if vp_skip { let vp_c = { let') + pat + lexs('= &vp_p;') + b + lexs('}; if !vp_c { vp_skip = false; } } if !vp_skip {'); tail = lexs('}') + tail
                    elif m == 'take_while': pre += lexs('let mut vp_take = true;'); body += lexs('if vp_take { let vp_c = { let') + pat + lexs('= &vp_p;') + b + lexs('}; if !vp_c { vp_take = false; } } if vp_take {'); tail = lexs('}') + tail
                    elif m == 'filter_map': body += lexs('let') + pat + lexs('= vp_p; let vp_m =') + b + lexs('; if let Some(vp_p) = vp_m {'); tail = lexs('}') + tail
                    elif m == 'flat_map': body += lexs('let') + pat + lexs('= vp_p; for vp_p in') + b + lexs('{'); tail = lexs('}') + tail
                if term == 'find_map':
                    c = closure(ts[i+3:e])
                    pat, b = (strip_ty(c[0]), c[1]) if c else (lexs('vp_y'), ts[i+3:e] + lexs('(vp_y)'))
                    if has_escape(b): raise Unsupported('find_map closure with early exit')
                    new = lexs('{ let mut vp_acc = None;') + pre + lexs('for vp_p in') + src + lexs('{ if vp_acc.is_none() {') + body + lexs('let') + pat + lexs('= vp_p; vp_acc =') + b + lexs(';') + tail + lexs('} } vp_acc }')
                    ts = ts[:st] + new + ts[e+1:]
                    continue
                if term in ('any', 'all'):
                    c = closure(ts[i+3:e])
                    pat, b = (strip_ty(c[0]), c[1]) if c else (lexs('vp_y'), ts[i+3:e] + lexs('(vp_y)'))
                    if has_escape(b): raise Unsupported(f'{term} closure with early exit')
                    st0, go = ('false', '!vp_acc') if term == 'any' else ('true', 'vp_acc')
                    new = lexs(f'{{ let mut vp_acc = {st0};') + pre + lexs('for vp_p in') + src + lexs(f'{{ if {go} {{') + body + lexs('let') + pat + lexs('= vp_p; vp_acc =') + b + lexs(';') + tail + lexs('} } vp_acc }')
                    ts = ts[:st] + new + ts[e+1:]
                    continue
                if term == 'sum':
                    new = lexs('{ let mut vp_acc = vp_zero(); ') + pre + lexs('for vp_p in') + src + lexs('{') + body + lexs('vp_acc = vp_acc + vp_p;') + tail + lexs('} vp_acc }')
                    ts = ts[:st] + new + ts[e+1:]
                    continue
                if parts[-1][0].s == 'flat_map':
                    # last: append the produced vector
                    k = max(x for x in range(len(body)) if body[x].s == 'for')
                    body = body[:k] + lexs('let vp_l =') + body[k+3:-1] + lexs('; vp_extend(&mut vp_acc, vp_l);')
                    tail = tail[1:]
                    push = []
                else: push = lexs('vp_acc.push(vp_p);')
                if results: push = lexs('let vp_p = vp_p?;') + push; e += 1
                if mut:
                    ts = ts[:st] + lexs('{ let mut vp_acc = Vec::new(); let mut vp_e: usize = 0; while vp_e <') + ch[:dots[it[-1]]] + lexs('.len() {') + pre + body + push + tail + lexs('vp_e = vp_e + 1; } vp_acc }') + ts[e+1:]
                    continue
                new = lexs('{ let mut vp_acc = Vec::new();') + pre + lexs('for vp_p in') + src + lexs('{') + body + push + tail + lexs('} vp_acc }')
                ts = ts[:st] + new + ts[e+1:]
                continue
        i += 1
    p = [x.s for x in lexs('.into_iter().chain(Some(')]
    i = 0
    while i < len(ts):
        if [x.s for x in ts[i:i+len(p)]] == p:
            st = receiver_start(ts, i); o = i + len(p) - 1; c = match_close(ts, o)
            if ts[st].s == 'Some':
                ts = ts[:st] + lexs('vp_vec2(') + ts[st+2:i-1] + lexs(',') + ts[o+1:c] + lexs(')') + ts[c+2:]
        i += 1
    return ts

def rw_refpat(ts):
    """R12: if let Some(&x) = E { B }  ->  if let Some(x) = E { let x = *x; B }"""
    i = 0
    while i + 5 < len(ts):
        if [t.s for t in ts[i:i+4]] == ['let', 'Some', '(', '&'] and ts[i+4].k == 'id' and ts[i+5].s == ')' and i and ts[i-1].s in ('if', 'while'):
            n = ts[i+4].s
            k = i + 6
            while ts[k].s != '{': k = match_close(ts, k) + 1 if ts[k].s in ('(', '[') else k + 1
            ts = ts[:i+3] + ts[i+4:k+1] + lexs(f'let {n} = *{n};') + ts[k+1:]
        i += 1
    return ts

def rw_retain(ts):
    """R11: X.retain(|p| B) on a Vec -> loop that moves the kept elements over"""
    i = 0
    while i < len(ts) - 2:
        if ts[i].s == '.' and ts[i+1].s == 'retain' and ts[i+2].s == '(':
            st = receiver_start(ts, i); e = match_close(ts, i + 2)
            x = ts[st:i]
            c = closure(ts[i+3:e])
            if c is None: pat, b = lexs('vp_y'), ts[i+3:e] + lexs('(vp_y)')
            else: pat, b = strip_ty(c[0]), c[1]
            if has_escape(b): raise Unsupported('retain closure with early exit')
            new = lexs('{ let mut vp_kept = Vec::new(); let vp_all = vp_take_vec(&mut') + x + lexs('); for vp_p in vp_all { let vp_c = { let') + pat + lexs('= &vp_p;') + b + lexs('}; if vp_c { vp_kept.push(vp_p); } }') + x + lexs('= vp_kept; }')
            ts = ts[:st] + new + ts[e+1:]
        i += 1
    return ts

def rw_methods(ts, extra=(), keep=()):
    out = []
    for i, t in enumerate(ts):
        if t.k == 'id' and i > 0 and ts[i-1].s == '.' and i + 1 < len(ts) and ts[i+1].s in ('(', '::') and (t.s in RENAME or t.s in extra) and t.s not in keep:
            out.append(raw('vp_' + t.s, 'id'))
        else: out.append(t)
    return out

def closure(ts):
    """|pat| body  ->  (pattern tokens, body tokens)"""
    if ts and ts[0].s == 'move': ts = ts[1:]
    if not ts or ts[0].s not in ('|', '||'): return None
    if ts[0].s == '||': return [], ts[1:]
    j, d = 1, 0
    while ts[j].s != '|' or d:
        if ts[j].s in OPEN: d += 1
        elif ts[j].s in CLOSE: d -= 1
        j += 1
    pat = ts[1:j]
    return pat, ts[j+1:]

def has_escape(ts):
    return any(t.s == '?' or t.s == 'return' for t in ts)

COMB = {'map', 'and_then', 'unwrap_or_else', 'filter', 'is_some_and', 'is_none_or', 'map_or', 'map_or_else', 'ok_or_else', 'or_else', 'map_err', 'ok', 'ok_or', 'unwrap_or', 'unwrap_or_default'}

def strip_ty(p):
    """|x: T| -> x"""
    d = 0
    for i, t in enumerate(p):
        if t.s in OPEN: d += 1
        elif t.s in CLOSE: d -= 1
        elif t.s == ':' and d == 0: return p[:i]
    return p

def rw_comb(ts, which):
    """R5: Option/Result combinators with a closure -> match.  `which`: {method: 'opt'|'res'}"""
    changed = True
    n = 0
    while changed:
        changed = False
        n += 1
        if n > 200: raise Unsupported('combinators')
        for i in range(1, len(ts) - 2):
            t = ts[i]
            if t.k == 'id' and ts[i-1].s == '.' and ts[i+1].s == '(' and t.s in which:
                e = match_close(ts, i + 1)
                args = split_args(ts[i+2:e])
                s = receiver_start(ts, i - 1)
                rec = ts[s:i-1]
                kind = which[t.s]
                m = t.s
                def fn(a, x):
                    """application of closure-or-path a to x -> (pattern, expr)"""
                    c = closure(a)
                    if c is None: return lexs(x), a + lexs(f'({x})')
                    if has_escape(c[1]): raise Unsupported('closure with early exit')
                    return strip_ty(c[0]), c[1]
                L = lambda s_: lexs(s_)
                S, Nn = (('Some', 'None') if kind == 'opt' else ('Ok', None))
                def mt(arms): return L('( match (') + rec + L(') {') + sum([p + L('=>') + L('{') + b + L('}') for p, b in arms], []) + L('} )')
                if m == 'map':
                    p, b = fn(args[0], 'vp_x')
                    arms = [(L('Some (') + p + L(')'), L('Some (') + b + L(')')), (L('None'), L('None'))] if kind == 'opt' else [(L('Ok (') + p + L(')'), L('Ok (') + b + L(')')), (L('Err(vp_e)'), L('Err(vp_e)'))]
                elif m == 'map_err':
                    p, b = fn(args[0], 'vp_x')
                    arms = [(L('Ok(vp_v)'), L('Ok(vp_v)')), (L('Err (') + p + L(')'), L('Err (') + b + L(')'))]
                elif m == 'and_then':
                    p, b = fn(args[0], 'vp_x')
                    arms = [(L('Some (') + p + L(')'), b), (L('None'), L('None'))] if kind == 'opt' else [(L('Ok (') + p + L(')'), b), (L('Err(vp_e)'), L('Err(vp_e)'))]
                elif m == 'unwrap_or_else':
                    c = closure(args[0])
                    if c is None: p, b = L('_vp_x'), args[0] + L('()' if kind == 'opt' else '(_vp_x)')
                    else: p, b = (c[0] or L('_')), c[1]
                    arms = [(L('Some(vp_v)'), L('vp_v')), (L('None'), b)] if kind == 'opt' else [(L('Ok(vp_v)'), L('vp_v')), (L('Err (') + p + L(')'), b)]
                elif m == 'unwrap_or':
                    arms = [(L('Some(vp_v)'), L('vp_v')), (L('None'), args[0])] if kind == 'opt' else [(L('Ok(vp_v)'), L('vp_v')), (L('Err(_)'), args[0])]
                elif m == 'is_some_and':
                    p, b = fn(args[0], 'vp_x')
                    arms = [(L('Some (') + p + L(')'), b), (L('None'), L('false'))]
                elif m == 'is_none_or':
                    p, b = fn(args[0], 'vp_x')
                    arms = [(L('Some (') + p + L(')'), b), (L('None'), L('true'))]
                elif m == 'map_or':
                    p, b = fn(args[1], 'vp_x')
                    arms = [(L('Some (') + p + L(')'), b), (L('None'), args[0])] if kind == 'opt' else [(L('Ok (') + p + L(')'), b), (L('Err(_)'), args[0])]
                elif m == 'map_or_else':
                    p, b = fn(args[1], 'vp_x')
                    c = closure(args[0])
                    d_ = c[1] if c else args[0] + L('()')
                    arms = [(L('Some (') + p + L(')'), b), (L('None'), d_)]
                elif m == 'ok_or_else':
                    c = closure(args[0])
                    b = c[1] if c else args[0] + L('()')
                    arms = [(L('Some(vp_v)'), L('Ok(vp_v)')), (L('None'), L('Err (') + b + L(')'))]
                elif m == 'ok_or':
                    arms = [(L('Some(vp_v)'), L('Ok(vp_v)')), (L('None'), L('Err (') + args[0] + L(')'))]
                elif m == 'or_else':
                    c = closure(args[0])
                    b = c[1] if c else args[0] + L('()')
                    arms = [(L('Some(vp_v)'), L('Some(vp_v)')), (L('None'), b)]
                elif m == 'ok':
                    arms = [(L('Ok(vp_v)'), L('Some(vp_v)')), (L('Err(_)'), L('None'))]
                elif m == 'filter':
                    p, b = fn(args[0], '&vp_v')
                    arms = [(L('Some(vp_v)'), L('if { let') + p + L('= &vp_v;') + b + L('} { Some(vp_v) } else { None }')), (L('None'), L('None'))]
                else: raise Unsupported(m)
                ts = ts[:s] + mt(arms) + ts[e+1:]
                changed = True
                break
    return ts

def sub_tokens(ts, pat, rep, must):
    """R7: token-level substitution; `$x` in pat matches one token"""
    p, r = lexs(pat), rep
    pt = [x.s for x in p]
    # join '$' ident
    pp, k = [], 0
    while k < len(pt):
        if pt[k] == '$': pp.append('$' + pt[k+1]); k += 2
        else: pp.append(pt[k]); k += 1
    out, i, hits = [], 0, 0
    while i < len(ts):
        env, ok = {}, i + len(pp) <= len(ts)
        if ok:
            for j, x in enumerate(pp):
                s = ts[i+j].s
                if x.startswith('$'):
                    if env.setdefault(x, s) != s: ok = False; break
                elif x != s: ok = False; break
        if ok:
            rs = re.sub(r'\$(\w+)', lambda m: env['$' + m.group(1)], r)
            out += lexs(rs); i += len(pp); hits += 1
        else: out.append(ts[i]); i += 1
    if must and not hits: raise Lost(f'substitution pattern absent: {pat}')
    return out

def strip_attrs(ts):
    """R1"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == '#' and i + 1 < len(ts) and ts[i+1].s in ('[',):
            i = match_close(ts, i + 1) + 1; continue
        out.append(ts[i]); i += 1
    return out

def strip_vis(ts):
    """visibility is widened to pub on types, fields and functions (R1)"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == 'pub':
            i += 1
            if i < len(ts) and ts[i].s == '(' and ts[i+1].s in ('crate', 'super', 'in', 'self'): i = match_close(ts, i) + 1
            continue
        out.append(ts[i]); i += 1
    return out

def rw_labels(ts): return ts

class FnSpec:
    def __init__(s, file, q, opts):
        s.file, s.q, s.opts = file, q, opts
        s.ret, s.spec, s.loops, s.start, s.befores, s.subs = 'r', '', {}, '', [], []; s.bodies = {}; s.finish = ''
        s.loop_iter = {}
        s.inner = {}; s.drops = []

def emit_regex(it):
    """R14: static NAME: Lazy<Regex> = .. Regex::new(LITERAL).. -> fn NAME() -> Regex whose pattern is that literal"""
    ts = sig(it.toks)
    k = [i for i in range(len(ts) - 4) if ts[i].s == 'Regex' and ts[i+1].s == '::' and ts[i+2].s == 'new' and ts[i+3].s == '(' and ts[i+4].k == 'str']
    if len(k) != 1: raise Lost(f'{it.name}: no single Regex::new(literal)')
    lit = ts[k[0]+4].s
    m = re.match(r'r(#*)"(.*)"\1$', lit, re.S)
    if m: lit = '"' + m.group(2).replace('\\', '\\\\').replace('"', '\\"') + '"'
    return f'#[allow(non_snake_case)]\npub fn {it.name}() -> (r: Regex)\n    ensures r.pat() == {lit}@\n{{ proof {{ reveal_strlit({lit}); }} Regex::new({lit}).unwrap() }}'

def emit_bytes(it):
    """R21: const NAME: &[u8] = b"LITERAL" -> fn NAME() returning a slice with exactly those bytes, and spec fn NAME_b"""
    ts = sig(it.toks)
    k = [t for t in ts if re.match(r'b"', t.s)]
    if len(k) != 1 or ts[-2] is not k[0]: raise Lost(f'{it.name}: not a byte string literal')
    import ast
    try: b = ast.literal_eval(re.sub(r'\\\n\s*', '', k[0].s))
    except Exception: raise Lost(f'{it.name}: literal')
    n = it.name.split('::')[-1]
    return f'#[allow(non_snake_case)] pub open spec fn {n}_b() -> Seq<u8> {{ seq![{", ".join(f"{x}u8" for x in b)}] }}\n#[allow(non_snake_case)] #[verifier::external_body] pub fn {n}() -> (r: &\'static [u8]) ensures r@ == {n}_b() {{ unimplemented!() }}'

def emit_cidrs(it, cover):
    """R27: static NAME: Lazy<Vec<Ipv4Network>> = Lazy::new(|| { [LITERALS].into_iter().map(|x| x.parse().unwrap()).collect() }) -> fn NAME() returning exactly those networks, and spec fn NAME_v"""
    ts = sig(it.toks); import ipaddress
    eq = next((i for i, t in enumerate(ts) if t.s == '='), None)
    if eq is None: raise Lost(f'{it.name}: no initializer')
    o = next((i for i in range(eq, len(ts)) if ts[i].s == '['), None)
    if o is None: raise Lost(f'{it.name}: no list of networks')
    c = match_close(ts, o); lits = [t for t in ts[o+1:c] if t.s != ',']
    rest = ''.join(t.s for t in ts[eq+1:o]) + '#' + re.sub(r'::<[^>]*(<_>)?>', '', ''.join(t.s for t in ts[c+1:]))
    if not re.fullmatch(r'Lazy::new\(\|\|\{?#\.(into_iter|iter)\(\)\.map\(\|(\w+)\|\2\.parse\(\)\.unwrap\(\)\)\.collect\(\)\}?\);', rest): raise Lost(f'{it.name}: initializer of another form: {rest}')
    nets = []
    for t in lits:
        m = re.fullmatch(r'"(\d+\.\d+\.\d+\.\d+)(?:/(\d+))?"', t.s)
        if not m: raise Lost(f'{it.name}: not a network: {t.s}')
        nets.append((int(ipaddress.IPv4Address(m.group(1))), int(m.group(2) or 32)))
    n, v = it.name, ', '.join(f'Ipv4Network {{ a: {a}u32, p: {p}u8 }}' for a, p in nets)
    if any(p > 32 or p == 0 for _, p in nets): raise Lost(f'{n}: prefix length')
    bit = ' || '.join(f'(x >> {32-p}u32) == {a >> (32-p)}u32' for a, p in nets)
    pf = ' '.join(f'if (x >> {32-p}u32) == {a >> (32-p)}u32 {{ assert({a}u32 >> {32-p}u32 == {a >> (32-p)}u32) by (bit_vector); assert(same_net(x, {n}_v()[{i}].a, {n}_v()[{i}].p)); }}' for i, (a, p) in enumerate(nets))
    return (f'#[allow(non_snake_case)] pub open spec fn {n}_v() -> Seq<Ipv4Network> {{ seq![{v}] }}\n#[allow(non_snake_case)] pub fn {n}() -> (r: Vec<Ipv4Network>) ensures r@ =~= {n}_v(), forall|i: int| 0 <= i < r@.len() ==> 0 < (#[trigger] r@[i]).p <= 32 {{ vec![{v}] }}\n'
        f'#[allow(non_snake_case)] pub proof fn {n}_covers(x: u32) requires {cover} ensures in_nets(x, {n}_v(), {n}_v().len() as int)\n{{ assert({bit}) by (bit_vector) requires {cover}; {pf} }}')

def emit_reprc(it):
    """R29: #[repr(C)] struct of u32 / u64 fields -> its layout (size and the place of each field) as the compiler lays it out"""
    at = ''.join(re.sub(r'\s', '', a) for a in it.attrs if 'repr' in a)
    if at != '#[repr(C)]': raise Lost(f'{it.name}: representation {at or "not fixed"}')
    all_ = sig(it.toks)
    ts = strip_vis(strip_attrs(all_)); n = it.name.split('::')[-1]
    o = next(i for i, t in enumerate(ts) if t.s == '{'); e = match_close(ts, o)
    off, al, fs, names = 0, 1, [], []
    for f in split_args(ts[o+1:e]):
        f = [t for t in strip_vis(f)]
        if not f: continue
        w = {'u32': 4, 'u64': 8}.get(f[-1].s)
        if w is None or len(f) != 3: raise Lost(f'{n}: field {jt(f)}')
        off = -(-off // w) * w; al = max(al, w)
        fs.append(f"{f[0].s}: {'word' if w == 4 else 'long'}(b, o + {off})"); names.append(f[0].s); off += w
    size = -(-off // al) * al
    return f'impl Raw for {n} {{ open spec fn sz() -> int {{ {size} }} open spec fn al() -> int {{ {al} }} open spec fn at(b: Seq<u8>, o: int) -> Self {{ {n} {{ {", ".join(fs)} }} }} }}'

def emit_tables(root, rel, ty, ens, hint, canary=False):
    """R22: every const of type ty in the file -> fn of the same name that builds the value, arrays borrowed for 'static becoming vectors"""
    out, names = [], []
    for it in source(root, rel).items:
        if it.kind not in ('const', 'static') or it.container is not None: continue
        ts = strip_vis(strip_attrs(sig(it.toks)))
        eq = next((i for i, t in enumerate(ts) if t.s == '='), None); co = next((i for i, t in enumerate(ts) if t.s == ':'), None)
        if eq is None or co is None or jt(ts[co+1:eq]).replace(' ', '') != ty: continue
        e, x, i = ts[eq+1:-1], [], 0
        while i < len(e):
            if e[i].s == '&' and i + 1 < len(e) and e[i+1].s == '[': x += lexs('vec!'); i += 1; continue
            x.append(e[i]); i += 1
        rty = "Vec<" + ty[2:-1].replace('&', "&'static ") + '>' if ty.startswith('&[') else ty
        lits = ''.join(f'reveal_strlit({l}); ' for l in dict.fromkeys(t.s for t in e if t.s.startswith('"')))
        out.append(f"#[allow(non_snake_case)] pub fn {it.name}() -> (r: {rty}) ensures {ens}\n{{ {'assert(false); ' if canary else ''}let r = {jt(x)}; proof {{ {lits}{hint} }} r }}"); names.append((it.name, it.path, it.line))
    if not out: raise Lost(f'no const of type {ty} in {rel}')
    return out, names

def drop_stmts(ts, pat, must, q):
    """R15: statements that begin with the given tokens and whose value is not used (effects outside the property) are dropped"""
    p = [t.s for t in lexs(pat)]; n = len(p); out, i, hit = [], 0, False
    while i < len(ts):
        if i and ts[i-1].s in (';', '{', '}') and [t.s for t in ts[i:i+n]] == p:
            j = i
            while j < len(ts) and ts[j].s != ';': j = match_close(ts, j) + 1 if ts[j].s in OPEN else j + 1
            i = j + 1; hit = True; continue
        out.append(ts[i]); i += 1
    if must and not hit: raise Lost(f'{q}: statement to drop is absent: {pat}')
    return out

def rw_tail_loop(body):
    """R23: `break e` out of a `loop` that is the last expression of a function body (so that its value is the function's) -> `return e`"""
    # body: { ... loop { ... } }
    i, last = 1, None
    while i < len(body) - 1:
        st = i
        while i < len(body) - 1 and body[i].s != ';':
            i = match_close(body, i) + 1 if body[i].s in OPEN else i + 1
            if body[i-1].s == '}' and body[st].s in ('for', 'while', 'loop', 'if', 'match', '{'): break
        if i < len(body) - 1 and body[i].s == ';': i += 1; last = None
        else: last = st
    if last is None or body[last].s != 'loop' or body[last+1].s != '{' or match_close(body, last+1) != len(body) - 2: return body
    out, j, e = body[:last+2], last + 2, len(body) - 2
    while j < e:
        t = body[j]
        if t.k == 'id' and t.s in ('for', 'while', 'loop'):
            k = j + 1
            while body[k].s != '{': k = match_close(body, k) + 1 if body[k].s in OPEN else k + 1
            c = match_close(body, k); out += body[j:c+1]; j = c + 1; continue
        if t.k == 'id' and t.s == 'break' and body[j+1].s not in (';', '}', ','): out += lexs('return')
        else: out.append(t)
        j += 1
    return out + body[e:]

def emit_item(it, subs=()):
    ts = strip_vis(strip_attrs(sig(it.toks)))
    for a, b, must in subs: ts = sub_tokens(ts, a, b, must)
    # pub on the item and its fields
    if it.kind == 'struct':
        k = [i for i, t in enumerate(ts) if t.s in ('{', '(')]
        if k and ts[k[0]].s == '{':
            o = k[0]; c = match_close(ts, o)
            fields = split_args_generic(ts[o+1:c])
            ts = ts[:o+1] + sum([lexs('pub') + f + lexs(',') for f in fields], []) + ts[c:]
        elif k:
            o = k[0]; c = match_close(ts, o)
            fields = split_args_generic(ts[o+1:c])
            ts = ts[:o+1] + sum([lexs('pub') + f + lexs(',') for f in fields], []) + ts[c:]
    return 'pub ' + jt(ts)

def split_args_generic(ts):
    """split at top-level commas, counting < > as brackets (types)"""
    out, cur, d = [], [], 0
    i = 0
    while i < len(ts):
        t = ts[i]
        if t.s in OPEN:
            e = match_close(ts, i); cur += ts[i:e+1]; i = e + 1; continue
        if t.s == '<': d += 1
        elif t.s == '>': d -= 1
        elif t.s == '>>': d -= 2
        if t.s == ',' and d == 0: out.append(cur); cur = []
        else: cur.append(t)
        i += 1
    if cur: out.append(cur)
    return out

def parse_opts(s):
    o = {}
    for w in s.split():
        k, _, v = w.partition('=')
        o[k] = v
    return o

def emit_fn(it, fs, canary=False):
    if it.body is None: raise Unsupported(f'{fs.q}: no body')
    b0, b1 = it.body
    head = strip_vis(strip_attrs(sig(it.toks[:b0])))
    body = strip_attrs(sig(it.toks[b0:b1+1]))
    if any(t.s == 'async' for t in head):
        if 'async' not in fs.opts: raise Unsupported(f'{fs.q}: async')
    head = [t for t in head if t.s not in ('async', 'const')]
    # R10: functions nested in the body are hoisted and need a contract of their own
    hoisted = ''
    j = 1
    while j < len(body) - 1:
        if body[j].s == 'fn' and body[j].k == 'id' and body[j-1].s in ('{', '}', ';') and body[j+1].k == 'id':
            nm = body[j+1].s
            b = j
            while body[b].s != '{': b = match_close(body, b) + 1 if body[b].s in ('(', '[') else b + 1
            e = match_close(body, b)
            if nm not in fs.inner: raise Lost(f'{fs.q}: nested function {nm} without a contract')
            class _It: pass
            x = _It(); x.toks = body[j:e+1]; x.body = (b - j, e - j)
            f2 = FnSpec(fs.file, f'{fs.q}::{nm}', parse_opts(fs.inner[nm][0])); f2.spec = fs.inner[nm][1]; f2.subs = fs.subs
            f2.subs = [(a, c, False) for a, c, _ in fs.subs]
            hoisted += emit_fn(x, f2, canary) + '\n'
            body = body[:j] + body[e+1:]
            continue
        j += 1
    body = rw_tail_loop(drop_macro_stmts(rw_local_macros(body)))
    for a, must in fs.drops: body = drop_stmts(body, a, must, fs.q)
    for a, b, must in fs.subs:
        nb = sub_tokens(body, a, b, False)
        nh = sub_tokens(head, a, b, False)
        if must and [t.s for t in nb] == [t.s for t in body] and [t.s for t in nh] == [t.s for t in head]:
            raise Lost(f'{fs.q}: substitution pattern absent: {a}')
        body, head = nb, nh
    if 'await' in fs.opts or 'async' in fs.opts:
        body = rw_join_all(rw_async_blocks(sub_tokens(body, '. await', '', False)))
    body = rw_matches_str(rw_anyhow(body))
    body = rw_format(body)
    which = {'map': 'opt', 'and_then': 'opt', 'unwrap_or_else': 'opt', 'filter': 'opt', 'is_some_and': 'opt', 'is_none_or': 'opt', 'map_or': 'opt', 'map_or_else': 'opt', 'ok_or_else': 'opt', 'or_else': 'opt', 'map_err': 'res', 'ok': 'res', 'unwrap_or': 'opt', 'ok_or': 'opt'}
    for k in fs.opts.get('nocomb', '').split(','): which.pop(k, None)
    for k in filter(None, fs.opts.get('res', '').split(',')): which[k] = 'res'
    body = rw_refpat(body)
    lazy = any(x.s == 'impl' and y.s == 'Iterator' for x, y in zip(head, head[1:]))
    if lazy:
        j = next(j for j, (x, y) in enumerate(zip(head, head[1:])) if x.s == 'impl' and y.s == 'Iterator')
        if [t.s for t in head[j+2:j+5]] != ['<', 'Item', '=']: raise Unsupported('impl Iterator')
        head = head[:j] + lexs('Vec<') + head[j+5:]
    body = rw_iters(body, set(filter(None, fs.opts.get('iters', '').split(','))), lazy)
    body = rw_iter_mut(rw_pipeline(rw_fold_reduce(body) if 'noretain' in fs.opts else rw_retain(rw_fold_reduce(body))))
    if 'noslice' not in fs.opts: body = rw_slices(body)
    body = rw_comb(body, which)
    body = rw_methods(body, extra=set(filter(None, fs.opts.get('ren', '').split(','))), keep=set(fs.opts.get('keep', '').split(',')))
    # signature
    k = next(i for i, t in enumerate(head) if t.s == 'fn')
    name = fs.opts.get('as') or head[k+1].s
    pre, rest = head[:k], head[k+2:]
    # generic params then ( params )
    i = 0
    if rest[0].s == '<':
        d = 0
        while True:
            if rest[i].s == '<': d += 1
            elif rest[i].s == '>': d -= 1
            elif rest[i].s == '->': pass
            i += 1
            if d == 0: break
    e = match_close(rest, i)
    gen, params, tail = rest[:i], rest[i:e+1], rest[e+1:]
    wh = []
    for j, t in enumerate(tail):
        if t.s == 'where': wh = tail[j:]; tail = tail[:j]; break
    rt = tail[1:] if tail and tail[0].s == '->' else []
    # R1: `mut` on a by-value parameter is moved to a rebinding at the start of the body
    rebind = ''
    ps = []
    for p in split_args_generic(params[1:-1]):
        if p[0].s == 'mut' and len(p) > 2 and p[1].k == 'id' and p[1].s != 'self':
            rebind += f'let mut {p[1].s} = {p[1].s};\n'; p = p[1:]
        elif p[0].s == 'mut' and p[1].s == 'self':
            # R25: a `self` taken by value and changed is moved into a local
            rebind += 'let mut vp_self = self;\n'; p = p[1:]
            body = [lexs('vp_self')[0] if t.k == 'id' and t.s == 'self' else t for t in body]
        ps.append(p)
    params = [params[0]] + sum([p + lexs(',') for p in ps], []) + [params[-1]]
    out = ['pub ', jt(pre), 'fn ', name, jt(gen), jt(params)]
    if rt: out += [' -> (', fs.ret, ': ', jt(rt), ')']
    if wh: out += [' ', jt(wh)]
    out.append('\n' + fs.spec + '\n')
    # body with loops / anchors
    loops = []
    for j, t in enumerate(body):
        if t.k == 'id' and t.s in ('for', 'while', 'loop') and not (t.s == 'for' and body[j+1].s == '<'):
            loops.append(j)
    if fs.loops and max(fs.loops) >= len(loops) or len(loops) != int(fs.opts.get('nloops', len(fs.loops))):
        raise Lost(f'{fs.q}: loop structure changed ({len(loops)} loops)')
    for kx in sorted((int(x) for x in filter(None, fs.opts.get('while', '').split(','))), reverse=True): body = for_to_while(body, loops[kx], kx)
    if fs.opts.get('while'): loops = [j for j, t in enumerate(body) if t.k == 'id' and t.s in ('for', 'while', 'loop') and not (t.s == 'for' and body[j+1].s == '<')]
    ins = {}   # position -> text inserted before token
    for kx, li in enumerate(loops):
        if kx not in fs.loops: continue
        # body brace: first '{' at depth 0 after li (conditions with struct literals do not occur)
        j = li + 1
        inpos = None
        while body[j].s != '{':
            if body[j].s in ('(', '['): j = match_close(body, j) + 1; continue
            if body[j].s == 'in' and inpos is None: inpos = j
            if body[j].s == 'match' : j = match_close(body, next(q for q in range(j, len(body)) if body[q].s == '{')) + 1; continue
            j += 1
        ins[j] = ins.get(j, '') + '\n' + fs.loops[kx] + '\n'
        if kx in fs.bodies: ins[j+1] = ins.get(j+1, '') + '\n' + fs.bodies[kx] + '\n'
        if kx in fs.loop_iter and inpos: ins[inpos+1] = ins.get(inpos+1, '') + f' {fs.loop_iter[kx]}: '
    for txt, ghost, opt in fs.befores:
        p = [x.s for x in lexs(txt)]
        hit = [j for j in range(len(body)) if [x.s for x in body[j:j+len(p)]] == p]
        if not hit:
            if opt: continue
            raise Lost(f'{fs.q}: ghost anchor {txt!r} absent')
        j = hit[0]
        d = 0
        # back to the statement start
        while j > 0:
            s = body[j-1].s
            if s in (')', ']', '}') and d == 0 and s != '}':
                j = match_open(body, j-1); continue
            if s in (';', '{', '}'): break
            j -= 1
        ins[j] = ins.get(j, '') + '\n' + ghost + '\n'
    # reveal the string literals that occur
    lits = []
    for t in body:
        if t.k == 'str' and t.s.startswith('"') and t.s not in lits: lits.append(t.s)
    start = ''.join(f'reveal_strlit({l});' for l in lits)
    start = rebind + (f'proof {{ {start} }}\n' if start else '')
    if canary: start += 'assert(false);\n'
    if 'r' in fs.opts.get('rl', ''): pass
    txt = []
    for j, t in enumerate(body):
        if j in ins: txt.append(ins[j])
        if fs.finish and j == len(body) - 1: txt.append(f'}};\n{fs.finish}\n{fs.ret}\n')
        txt.append(t.s)
        # shift operators are lexed as two tokens
        if t.s in ('<', '>') and j + 1 < len(body) and j + 1 not in ins and body[j+1].s == t.s and body[j+1].a == t.b: continue
        txt.append('\n' if t.s in (';', '{', '}') else ' ')
        if j == 0: txt.append(start + fs.start + (f'\nlet {fs.ret} = {{\n' if fs.finish else ''))
    out.append(''.join(txt))
    return hoisted + ''.join(out)

def for_to_while(body, li, k):
    """R18: `for P in E { B }` over a Vec -> index loop, so that `continue` is expressible: the k-th loop's index is vp_i<k>"""
    j, inp = li + 1, None
    while body[j].s != '{':
        if body[j].s in ('(', '['): j = match_close(body, j) + 1; continue
        if body[j].s == 'in' and inp is None: inp = j
        j += 1
    e = match_close(body, j)
    pat, ex = body[li+1:inp], body[inp+1:j]
    return (body[:li] + lexs(f'let vp_v{k} =') + ex + lexs(f'; let mut vp_i{k} : usize = 0 ; while vp_i{k} < vp_v{k} . len ( )') + lexs('{ let') + pat
            + lexs(f'= vp_elem ( & vp_v{k} , vp_i{k} ) ; vp_i{k} += 1 ;') + body[j+1:e] + [body[e]] + body[e+1:])

def calls_of(it):
    """names called as plain functions or self-methods in the item"""
    ts = sig(it.toks[it.body[0]:it.body[1]+1])
    return {ts[i].s for i in range(len(ts)-1) if ts[i].k == 'id' and ts[i+1].s == '('}

def expand(path):
    out = []
    for l in open(path).read().split('\n'):
        m = re.match(r'\s*//@include (\S+)', l)
        if m: out += expand(os.path.join(os.path.dirname(path), m.group(1)))
        else: out.append(l)
    return out

class Woven:
    def __init__(s): s.text, s.fns, s.lost, s.items, s.uncontracted, s.closures = '', [], [], [], [], set()

def weave(root, tpl_path, canary=False, only=None):
    """template -> Verus source.  Lost functions are recorded (their contracts are kept as trusted-free gaps: undecided)."""
    w = Woven()
    out, lines = [], expand(tpl_path)
    i = 0
    contracted = set()
    for l in lines:
        m = re.match(r'\s*//@fn (\S+) (.+)$', l)
        if m:
            mm = re.match(r'(<[^>]*(?:<[^>]*>)?[^>]*>::\w+|\S+)', m.group(2))
            contracted.add(mm.group(1).split('::')[-1])
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@item (\S+) (.+)$', l)
        if m:
            rel, q = m.group(1), m.group(2).strip()
            derive = ''
            if ' derive=' in q: q, derive = q.split(' derive='); derive = '#[derive(' + derive + ')]\n'
            subs = []
            i += 1
            while i < len(lines) and re.match(r'\s*//@isub', lines[i]):
                mm = re.match(r'\s*//@isub(\??) (.*) ==> ?(.*)$', lines[i])
                subs.append((mm.group(2), mm.group(3), not mm.group(1))); i += 1
            it = find_item(root, rel, q, ('struct', 'enum', 'const', 'static', 'type'))
            out.append(derive + emit_item(it, subs)); w.items.append(f'{it.path}:{it.line} {q}')
            continue
        m = re.match(r'\s*//@regex (\S+) (\w+)\s*$', l)
        if m:
            out.append(emit_regex(find_item(root, m.group(1), m.group(2), ('static', 'const')))); w.items.append(f'pattern of {m.group(2)}'); i += 1
            continue
        m = re.match(r'\s*//@tables (\S+) (\S+) ensures (.*) hint (.*)$', l)
        if m:
            o, ns = emit_tables(root, *m.groups(), canary)
            for t, (n, pth, ln) in zip(o, ns):
                a = sum(x.count('\n') + 1 for x in out) + 1
                out.append(t); w.fns.append((n, n, pth, ln, a, a + t.count('\n')))
            i += 1; continue
        m = re.match(r'\s*//@bytes (\S+) (\S+)\s*$', l)
        if m:
            out.append(emit_bytes(find_item(root, m.group(1), m.group(2), ('static', 'const')))); w.items.append(f'bytes of {m.group(2)}'); i += 1
            continue
        m = re.match(r'\s*//@reprc (\S+) (\S+)\s*$', l)
        if m:
            it = find_item(root, m.group(1), m.group(2), ('struct',)); out.append(emit_reprc(it)); w.items.append(f'layout of {m.group(2)}'); i += 1
            continue
        m = re.match(r'\s*//@cidrs (\S+) (\S+) covers (.*)$', l)
        if m:
            it = find_item(root, m.group(1), m.group(2), ('static', 'const')); t = emit_cidrs(it, m.group(3))
            if canary: t = t.replace('{ vec!', '{ assert(false); vec!')
            a = sum(x.count('\n') + 1 for x in out) + 1
            out.append(t); w.fns.append((m.group(2) + '_covers', m.group(2), it.path, it.line, a, a + t.count('\n'))); i += 1
            continue
        m = re.match(r'\s*//@fn (\S+) (.+)$', l)
        if m:
            rest = m.group(2)
            mm = re.match(r'(<[^>]*(?:<[^>]*>)?[^>]*>::\w+(?:/<[^>]*>::\w+)?|\S+)\s*(.*)$', rest)
            fs = FnSpec(m.group(1), mm.group(1), parse_opts(mm.group(2)))
            i += 1
            cur, buf = None, []
            def close():
                nonlocal buf
                t = '\n'.join(buf); buf = []
                if cur is None: return
                if cur[0] == 'spec': fs.spec = t
                elif cur[0] == 'start': fs.start = t
                elif cur[0] == 'finish': fs.finish = t
                elif cur[0] == 'loop': fs.loops[cur[1]] = t
                elif cur[0] == 'body': fs.bodies[cur[1]] = t
                elif cur[0] == 'inner': fs.inner[cur[1]] = (cur[2], t)
                elif cur[0] == 'before': fs.befores.append((cur[1], t, cur[2]))
            while True:
                if i >= len(lines): raise Exception('template: //@end missing')
                x = lines[i]; i += 1
                d = re.match(r'\s*//@(\w+\??)\s*(.*)$', x)
                if not d: buf.append(x); continue
                k, a = d.group(1), d.group(2)
                if k == 'end': close(); break
                if k == 'ret': fs.ret = a.strip(); continue
                if k in ('sub', 'sub?'):
                    p, r = a.split('==>', 1); fs.subs.append((p.strip(), r.strip(), k == 'sub')); continue
                if k in ('drop', 'drop?'): fs.drops.append((a.strip(), k == 'drop')); continue
                close()
                if k == 'spec': cur = ('spec',)
                elif k == 'start': cur = ('start',)
                elif k == 'finish': cur = ('finish',)
                elif k == 'inner':
                    o = a.split(None, 1); cur = ('inner', o[0], o[1] if len(o) > 1 else '')
                elif k == 'loop':
                    o = a.split(); cur = ('loop', int(o[0]))
                    for z in o[1:]:
                        if z.startswith('iter='): fs.loop_iter[int(o[0])] = z[5:]
                elif k == 'body': cur = ('body', int(a))
                elif k in ('before', 'before?'): cur = ('before', a.strip(), k.endswith('?'))
                else: raise Exception('template directive ' + k)
            it = find_item(root, fs.file, fs.q, ('fn',))
            w.fns.append((fs.opts.get('as') or it.name, fs.q, it.path, it.line))
            a = sum(x.count('\n') + 1 for x in out) + 1
            t = emit_fn(it, fs, canary)
            out.append(t)
            w.fns[-1] += (a, a + t.count('\n'))
            # a closure with a name and no contract says nothing about its result: what is refused around it is undecided
            if len(re.findall(r'let (?:mut )?\w+ = (?:move )?\|[^|\n]*\|(?! *->)(?! *ensures)', t)) > int(fs.opts.get('closures', 0)): w.closures.add(fs.q)
            # local helpers without a contract -> the proof of this function is undecided
            src = source(root, it.path)
            local = {x.name for x in src.items if x.kind == 'fn'}
            nested = {x.name for x in _nested(it)}
            miss = sorted(c for c in calls_of(it) if c in local and c not in contracted and c not in nested and c not in fs.opts.get('stub', '').split(','))
            if miss: w.uncontracted.append((fs.q, miss))
            continue
        out.append(l); i += 1
    w.text = '\n'.join(out)
    return w

def _nested(it):
    return []

# ------------------------------------------------------------------ verbatim extraction for replay harnesses
def pull(root, rel, wanted, exclude=(), widen=True, also_files=()):
    """verbatim text of the wanted items of one file plus, transitively, the items of that file they mention.
    `wanted`: names (free items, types with all their impls, `Type::method`).  Test code is never pulled."""
    src = source(root, rel)
    top = [it for it in src.items if it.container is None and it.prefix == '' and it.kind not in ('use',)]
    byname = {}
    for it in top:
        if it.kind == 'impl':
            ty = it.name.split(' for ')[-1]
            byname.setdefault(ty.split('::')[-1], []).append(it)
        elif it.name: byname.setdefault(it.name, []).append(it)
    chosen, todo, seen = [], list(wanted), set()
    for n in wanted:
        if n.split('::')[0] not in byname:
            it = find_item(root, rel, n)  # moved to another file?
            raise Lost(f'moved item {n} -> {it.path}')
    while todo:
        n = todo.pop()
        if n in seen or n in exclude: continue
        seen.add(n)
        for it in byname.get(n, []):
            if f'impl {it.name}' in exclude: continue
            if it not in chosen:
                chosen.append(it)
                for t in it.toks:
                    if t.k == 'id' and t.s in byname and t.s not in seen: todo.append(t.s)
                    # inline format arguments do not name items
    chosen.sort(key=lambda it: it.line)
    return chosen

def verbatim(it, attrs=True, keep=lambda a: True):
    a = '\n'.join(x for x in it.attrs if keep(x) and not re.match(r'#\s*\[\s*(tracing|cfg_attr|instrument)', x)) if attrs else ''
    return a + '\n' + it.src
