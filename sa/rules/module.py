"""Checks of whole modules that need no paths."""
import os, re, shutil, tempfile
from ..base import Broken
from .. import front

PRINTS = ('printf', 'puts', 'putchar', 'perror', 'fprintf', 'putc', 'fputc', 'fputs', 'fflush_stdout')
HIDDEN = ('rand', 'srand', 'random', 'srandom', 'rand_r', 'drand48', 'lrand48', 'srand48', 'strtok', 'strerror', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'setenv',
          'putenv', 'localtime', 'gmtime', 'tmpnam', 'setlocale', 'getpid')


# ---------------------------------------------------------------- P35
def uses(f, name):
    """instructions that use the global, by what they do with it: 'load', 'store', 'other'"""
    todo, seen, out = [name], set(), []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        pat = re.compile(re.escape(v) + r'(?![\w.])')
        for b in f.blocks:
            for i in list(b.phis) + b.insts:
                if i.res == v or not pat.search(i.text.split(', !dbg')[0]):
                    continue
                if i.op == 'load':
                    out.append(('load', i))
                elif i.op == 'store':
                    out.append(('store' if pat.search(i.a[1]) else 'other', i))
                elif i.op in ('gep', 'phi', 'select') or i.op == 'cast':
                    todo.append(i.res)
                elif i.op == 'icmp':
                    pass
                elif i.op == 'call' and i.a[0].startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@memcpy', '@memset', '@memcmp', '@llvm.dbg')):
                    a = [x for _, x in i.a[1]]
                    if i.a[0].startswith(('@memcmp', '@llvm.dbg')):
                        out.append(('load', i))
                    else:
                        out.append(('store' if pat.search(a[0]) else 'load', i))
                else:
                    out.append(('other', i))
    return out


def own_update(f, i, name):
    """is what is loaded only used to set the same variable"""
    todo, seen = [i.res], set()
    if i.res is None:
        return False
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        pat = re.compile(re.escape(v) + r'(?![\w.])')
        for b in f.blocks:
            for j in list(b.phis) + b.insts:
                if j.res == v or not pat.search(j.text.split(', !dbg')[0]):
                    continue
                if j.op in ('bin', 'cast'):
                    todo.append(j.res)
                elif j.op == 'store' and j.a[1] == name:
                    pass
                elif j.op == 'call' and j.a[0].startswith('@llvm.dbg'):
                    pass
                else:
                    return False
    return True


def hidden_state(m, rep):
    for n, g in m.globals.items():
        rep.count('global variables', n)
        if g[0] or n.startswith('llvm.'):
            continue
        name = '@' + n
        w, r = [], []
        for f in m.funcs.values():
            for k, i in uses(f, name):
                if k != 'load':
                    w.append(i)
                if k == 'other' or k == 'load' and not own_update(f, i, name):
                    r.append(i)
        if w and r:
            i = w[0]
            rep.bad(i, 'global:%s' % n, 'what is kept in %s lasts from call to call outside the objects the functions are given (it is read at %s)' % (n, m.locstr(r[0])))
    for f in m.funcs.values():
        rep.count('functions', f.name)
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'call' and i.a[0][1:] in HIDDEN and i.a[0][0] == '@':
                    rep.bad(i, 'call:%s' % i.a[0][1:], '%s depends on state outside the objects the functions are given' % i.a[0][1:])


# ---------------------------------------------------------------- P37
def bodies(fl):
    """function name -> (canonical text, first source line) without the calls that print"""
    tmp = tempfile.mkdtemp(prefix='edbsa_')
    try:
        bc = front.link_ir(fl, tmp)
        prints = re.compile(r'\s+(%%\S+ = )?(tail )?call \S+.* @(%s)\(' % '|'.join(PRINTS))
        ls = front.dis(bc, tmp)
        n = sum(1 for l in ls if prints.match(l))
        o, r = os.path.join(tmp, 'n.ll'), os.path.join(tmp, 'r.ll')
        with open(o, 'w') as f:
            f.write('\n'.join(l for l in ls if not prints.match(l)) + '\n')
        front.run(['opt', '-S', o, '-o', r, '-strip-debug', '-passes=function(sroa,simplifycfg),cgscc(function-attrs),function(adce,simplifycfg,sroa,adce,simplifycfg)'])
        with open(r) as f:
            t = f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    consts = {k: v for k, v in re.findall(r'(?m)^(@[\w.$]+) = (.*\bconstant\b.*?)(?:, align \d+)?$', t)}
    out = {}
    for d in re.finditer(r'(?ms)^define (.*?)\n}\n', t):
        x = d.group(1)
        name = re.search(r'@([\w.$]+)\(', x).group(1)
        names = {}
        order = {'%' + l: i for i, l in enumerate(re.findall(r'(?m)^([\w.$-]+):', x))}
        x = re.sub(r' #\d+', '', x)
        x = re.sub(r',? !\S+', '', re.sub(r'(?m) *; preds = .*$', '', x))
        x = re.sub(r'(?m)^([\w.$-]+):', r'%\1:', x)
        x = re.sub(r'( = phi \S+ )(\[.*\])', lambda k: k.group(1) + ', '.join(sorted(re.findall(r'\[[^]]*\]', k.group(2)), key=lambda y: int(order.get(y.split(',')[1].strip(' ]'), 0)))), x)
        x = re.sub(r'%(?!struct\.|union\.)[\w.$-]+', lambda k: names.setdefault(k.group(0), '%%v%d' % len(names)), x)
        out[name] = re.sub(r'@[\w.$]+', lambda k: consts.get(k.group(0), k.group(0)), x)
    return out, n


def same_with_errors(m, rep):
    fl = rep.flavour.split('+')[0]
    (a, _), (b, n) = bodies(fl), bodies(fl + '+errors')
    rep.count('calls that print', None)
    rep.r.counts['calls that print'] = n
    src = {f.name: f for f in m.funcs.values()}
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            one = a.get(f) or b[f]
            if not one.startswith('internal '):
                at(m, rep, f, 'only:%s' % f, '%s exists only %s PRINT_ERRORS' % (f, 'without' if f in a else 'with'))
            continue
        rep.count('functions compared', f)
        if a[f] != b[f]:
            d = next((i for i, (x, y) in enumerate(zip(a[f].split('\n'), b[f].split('\n'))) if x != y), 0)
            at(m, rep, f, 'differs:%s' % f, '%s does something else when error messages are turned on: "%s" becomes "%s"' % (
                f, a[f].split('\n')[d].strip()[:90], (b[f].split('\n') + [''] * (d + 1))[d].strip()[:90]))


def at(m, rep, f, key, msg):
    if f in m.funcs:
        rep.bad(m.funcs[f].blocks[0].insts[0], key, msg)
    else:
        rep.bad(None, key, msg, loc=f, fn=f)


# ---------------------------------------------------------------- P24
WIDTHS = {'count_t': 16, 'id_t': 32}
NAMES = {16: 'a record count or position', 32: 'a page or record number'}


class Widths:
    """how many bits a value needs that stems from counts (16) and page or record numbers (32)"""

    def __init__(self, m):
        self.m = m
        self.rets = {}
        self.byoff = {}
        for s, fl in m.fields.items():
            for o, (n, size, t) in fl.items():
                w = self.typedef(t) or (32 if s in ('embedDBState', 'embedDBIterator', 'embedDBVarDataStream') and size == 4 else 0)
                if w:
                    self.byoff.setdefault((s, o), (w, size * 8))
        for f in m.funcs.values():
            tl = m.mdget(m.mdget(m.mdget(f.dbg)['type'])['types'])['items'] if f.dbg is not None else ['null']
            self.rets[f.name] = self.typedef(tl[0]), [self.typedef(t) for t in tl[1:]]

    def typedef(self, t):
        while t not in (None, 'null'):
            d = self.m.mdget(t)
            if not d or d.get('_') != 'DIDerivedType':
                return 0
            n = d.get('name', '').strip('"')
            if d.get('tag') == 'DW_TAG_typedef' and n in WIDTHS:
                return WIDTHS[n]
            if d.get('tag') == 'DW_TAG_pointer_type':
                return 0
            t = d.get('baseType')
        return 0

    def analyse(self, f):
        m = self.m
        w, cnt = {}, set()
        ps = self.rets[f.name][1]
        for (ty, v), k in zip([p[:2] for p in f.params], ps):
            if ty in ('i16', 'i32') and k:
                w[v] = k
        defs = {i.res: i for b in f.blocks for i in list(b.phis) + b.insts if i.res}
        work = True
        while work:
            work = False
            for i in defs.values():
                n = self.width(i, w, defs)
                if n > w.get(i.res, 0):
                    w[i.res] = n
                    work = True
        return w, defs

    def width(self, i, w, defs):
        g = lambda v: w.get(v, 0) if isinstance(v, str) else 0
        if i.op == 'load':
            n = {'i16': 16, 'i32': 32}.get(i.ty, 0)
            if not n:
                return 0
            a = defs.get(i.a)
            if a is not None and a.op == 'gep' and a.ty.startswith('%'):
                s = a.ty[1:].replace('struct.', '')
                idx = a.a[1]
                if len(idx) == 2 and str(idx[1][1]).isdigit() and a.ty in self.m.types.structs:
                    o = self.m.types.layout(a.ty)[0][int(idx[1][1])]
                    k = self.byoff.get((s, o))
                    return k[0] if k else 0
                return 0
            if a is not None and a.op == 'gep' and n == 16 and a.a[1][-1][1] == '4':
                return 16           # EMBEDDB_GET_COUNT
            return 0
        if i.op == 'call':
            c = i.a[0]
            return self.rets.get(c[1:], (0,))[0] if c[0] == '@' else 0
        if i.op == 'cast':
            n = g(i.a[2])
            if i.a[0] == 'trunc':
                n = min(n, int(i.ty[1:]))
                return n if n >= 16 else 0
            return n if i.a[0] in ('zext', 'sext') else 0
        if i.op == 'bin':
            x, y = g(i.a[1]), g(i.a[2])
            if i.a[0] in ('add', 'sub', 'mul'):
                return max(x, y)
            if i.a[0] in ('udiv', 'sdiv'):
                return x
            if i.a[0] in ('urem', 'srem'):
                return min(x, y) if y else 0
            return 0
        if i.op == 'phi':
            return max((g(v) for v, _ in i.a), default=0)
        if i.op == 'select':
            return max(g(i.a[1]), g(i.a[2]))
        return 0

    def counter(self, v, defs, depth=0):
        """-> width of the counter that v is (an extension of)"""
        i = defs.get(v)
        if i is None or depth > 4:
            return 0
        if i.op == 'cast' and i.a[0] in ('zext', 'sext'):
            return self.counter(i.a[2], defs, depth + 1)
        if i.op != 'phi' or not i.ty[1:].isdigit():
            return 0
        todo, seen = [x for x, _ in i.a], set()
        while todo:
            x = todo.pop()
            j = defs.get(x)
            if x in seen or j is None:
                continue
            seen.add(x)
            if j.op == 'bin' and j.a[0] in ('add', 'sub') and str(j.a[2]).lstrip('-').isdigit():
                y = j.a[1]
                while defs.get(y) is not None and defs[y].op == 'cast':
                    y = defs[y].a[2]
                if y == i.res:
                    return int(i.ty[1:])
                todo.append(y)
            elif j.op == 'cast':
                todo.append(j.a[2])
            elif j.op == 'phi':
                todo += [y for y, _ in j.a]
        return 0


def narrowing(m, rep):
    W = Widths(m)
    for f in m.funcs.values():
        if f.dbg is None or not any(k in (f.file or '') for k in ('embedDB.c', 'spline.c')):
            continue
        w, defs = W.analyse(f)
        if w:
            rep.count('functions with counts or numbers', f.name)
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'cast' and i.a[0] == 'trunc' and i.ty != 'i1':
                    n, t = w.get(i.a[2], 0), int(i.ty[1:])
                    rep.count('conversions', i)
                    if n > t:
                        rep.bad(i, 'narrow:%s' % m.srcfunc(i), '%s is converted to %d bits' % (NAMES[n], t))
                elif i.op == 'icmp':
                    x, y = i.a[1], i.a[2]
                    for p, q in ((x, y), (y, x)):
                        n = w.get(q, 0) if isinstance(q, str) else 0
                        c = W.counter(p, defs) if isinstance(p, str) else 0
                        if n and not w.get(p, 0) >= n or c:
                            rep.count('comparisons', i)
                        if c and n > c:
                            rep.bad(i, 'counter:%s' % m.srcfunc(i), 'a counter of %d bits is compared with %s' % (c, NAMES[n]))


# ---------------------------------------------------------------- counters that wrap around
def cycles(f, loops):
    """(phi, members of the cycle through it) for the loop variables that change by constants"""
    defs = {i.res: i for b in f.blocks for i in list(b.phis) + b.insts if i.res}
    for h, body in loops.items():
        names = {b.name for b in body}
        for p in h.phis:
            if not p.ty[:1] == 'i' or p.ty == 'i1':
                continue
            todo, seen, steps = [v for v, pb in p.a if pb in names], set(), 0
            while todo:
                x = todo.pop()
                j = defs.get(x) if isinstance(x, str) else None
                if j is None or x in seen:
                    continue
                seen.add(x)
                if j.op == 'bin' and j.a[0] in ('add', 'sub'):
                    k = [y for y in j.a[1:3] if not str(y).lstrip('-').isdigit()]
                    if len(k) == 1:
                        steps += 1
                        todo += k
                elif j.op == 'cast':
                    todo.append(j.a[2])
                elif j.op == 'phi' and j is not p:
                    todo += [y for y, _ in j.a]
                elif j.op == 'select':
                    todo += [j.a[2], j.a[3]] if len(j.a) > 3 else list(j.a[1:3])
            if p.res in seen and steps:
                yield h, body, p, seen, defs


def counters(*entries):
    """over all functions, or over those that the entries call directly or through others"""
    def job(m, rep):
        from ..ir import loops_of
        only = None
        if entries:
            only, todo = set(), [e(m) if callable(e) else e for e in entries]
            while todo:
                g = todo.pop()
                if g not in only and g in m.funcs:
                    only.add(g)
                    todo += [i.a[0][1:] for b in m.funcs[g].blocks for i in b.insts if i.op == 'call' and str(i.a[0])[:1] == '@']
        for f in m.funcs.values():
            if f.dbg is None or only is not None and f.name not in only:
                continue
            loops, _ = loops_of(f)
            cs = list(cycles(f, loops))
            for h, body, p, seen, defs in cs:
                n = int(p.ty[1:])
                rep.count('loop counters', p)
                if n > 16:
                    continue
                fam = set()
                for h2, _, p2, s2, _ in cs:
                    if h2 is h:
                        fam |= s2
                # values that follow from a loop variable, whatever its width
                grow = True
                while grow:
                    grow = False
                    for b in body:
                        for i in b.insts:
                            if i.res and i.res not in fam and (i.op == 'cast' and i.a[2] in fam or i.op == 'bin' and i.a[1] in fam and str(i.a[2]).lstrip('-').isdigit()):
                                fam.add(i.res)
                                grow = True
                bound = False
                down = any(defs[d].op == 'bin' and '-' in str(defs[d].a[2]) for d in seen)
                for b in body:
                    for i in b.insts:
                        if i.op == 'icmp':
                            for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
                                if x in fam and (y not in ('0', 0) or i.a[0][:1] in 'su' or down):
                                    bound = True
                if not bound:
                    rep.bad(h.insts[-1], 'wraps:%s' % m.srcfunc(h.insts[-1]), 'a counter of %d bits is changed in a loop that it does not bound, and wraps around' % n)
    return job
