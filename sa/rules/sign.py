"""What is done with the result of comparing two values: only its sign has a meaning."""
COMPARES = ('compareKey', 'compareData')
ALL8 = tuple(range(-128, 128))


def member(m, defs, v):
    """name of the member of a struct that was loaded into v, through joins: a set of names"""
    todo, seen, out = [v], set(), set()
    while todo:
        v = todo.pop()
        i = defs.get(v)
        if v in seen:
            continue
        seen.add(v)
        if i is None:
            out.add('' if v in defs else 'param')
        elif i.op == 'phi':
            todo += [x for x, _ in i.a]
        elif i.op == 'select':
            todo += list(i.a[1:])
        elif i.op == 'cast':
            todo.append(i.a[2])
        elif i.op == 'load':
            a = defs.get(i.a)
            n = ''
            if a is not None and a.op == 'gep' and a.ty in m.types.structs:
                idx = a.a[1]
                if len(idx) == 2 and str(idx[1][1]).isdigit():
                    o = m.types.layout(a.ty)[0][int(idx[1][1])]
                    n = m.fields.get(a.ty[1:].replace('struct.', ''), {}).get(o, ('',))[0]
            out.add(n)
        else:
            out.add('')
    return out


def wrap(v, bits, signed=True):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def const(x):
    if isinstance(x, str) and x in ('true', 'false'):
        return int(x == 'true')
    return int(x) if str(x).lstrip('-').isdigit() else None


PRED = {'eq': lambda a, b, u, v: a == b, 'ne': lambda a, b, u, v: a != b,
        'slt': lambda a, b, u, v: a < b, 'sle': lambda a, b, u, v: a <= b, 'sgt': lambda a, b, u, v: a > b, 'sge': lambda a, b, u, v: a >= b,
        'ult': lambda a, b, u, v: u < v, 'ule': lambda a, b, u, v: u <= v, 'ugt': lambda a, b, u, v: u > v, 'uge': lambda a, b, u, v: u >= v}


def binary(op, a, b, bits):
    u, v = wrap(a, bits, False), wrap(b, bits, False)
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = u & v
    elif op == 'or':
        r = u | v
    elif op == 'xor':
        r = u ^ v
    elif op == 'shl' and v < bits:
        r = u << v
    elif op == 'lshr' and v < bits:
        r = u >> v
    elif op == 'ashr' and v < bits:
        r = a >> v
    else:
        return None
    return wrap(r, bits)


def by_sign(t):
    """is the table of 256 outcomes the same for all positive and for all negative results"""
    return len(set(t[:128])) == 1 and len(set(t[129:])) == 1


def signs(m, rep):
    defs = {f.name: {i.res: i for b in f.blocks for i in list(b.phis) + b.insts if i.res} for f in m.funcs.values()}
    todo, seen = [], set()
    callers = {}
    for f in m.funcs.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'call':
                    continue
                if i.a[0][0] == '@':
                    callers.setdefault(i.a[0][1:], []).append(i)
                    continue
                if i.ty != 'i8' or [t for t, _ in i.a[1] if t != 'metadata'] != ['ptr', 'ptr']:
                    continue
                names = member(m, defs[f.name], i.a[0])
                if not names & (set(COMPARES) | {'param'}):
                    continue
                rep.count('comparisons of keys and data', i)
                if i.res:
                    todo.append((f, i.res, ALL8, i))
    while todo:
        f, v, t, src = todo.pop()
        if (f.name, v, t, src.id, src.fn.name) in seen or len(seen) > 20000:
            continue
        seen.add((f.name, v, t, src.id, src.fn.name))
        for b in f.blocks:
            for i in list(b.phis) + b.insts:
                if i.op == 'phi':
                    if any(x == v for x, _ in i.a):
                        todo.append((f, i.res, t, src))
                elif i.op == 'select':
                    if v in i.a[1:]:
                        todo.append((f, i.res, t, src))
                elif i.op == 'cast' and i.a[2] == v:
                    r = cast(i, t)
                    if r is not None:
                        todo.append((f, i.res, r, src))
                elif i.op == 'bin' and v in i.a[1:3]:
                    k = [const(x) for x in i.a[1:3] if x != v]
                    if len(k) == 1 and k[0] is not None and i.ty[0] == 'i':
                        n = int(i.ty[1:])
                        r = tuple(binary(i.a[0], *((x, k[0]) if i.a[1] == v else (k[0], x)), n) for x in t)
                        if None not in r:
                            todo.append((f, i.res, r, src))
                elif i.op == 'icmp' and v in i.a[1:3]:
                    k = [const(x) for x in i.a[1:3] if x != v]
                    if len(k) != 1 or k[0] is None or i.a[0] not in PRED:
                        continue
                    n = int(bits(m, f, defs, i, v) or 32)
                    w = lambda a, c: PRED[i.a[0]](a, c, wrap(a, n, False), wrap(c, n, False))
                    judge(m, rep, i, src, tuple(w(x, k[0]) if i.a[1] == v else w(k[0], x) for x in t), t)
                elif i.op == 'switch' and i.a[0] == v:
                    c = {k: s for k, s in i.a[2]}
                    judge(m, rep, i, src, tuple(c.get(x, i.a[1]) for x in t), t)
                elif i.op == 'call' and i.a[0][0] == '@' and i.a[0][1:] in m.funcs:
                    g = m.funcs[i.a[0][1:]]
                    for (_, x), p in zip([z for z in i.a[1] if z[0] != 'metadata'], g.params):
                        if x == v:
                            todo.append((g, p[1], t, src))
                elif i.op == 'ret' and i.a == v:
                    for c in callers.get(f.name, ()):
                        if c.res:
                            todo.append((c.fn, c.res, t, src))


def bits(m, f, defs, i, v):
    return i.ty[1:] if i.ty and i.ty[0] == 'i' else None


def cast(i, t):
    op, ty = i.a[0], i.a[1]
    if not (ty[:1] == 'i' and i.ty[:1] == 'i') or op not in ('sext', 'zext', 'trunc', 'bitcast'):
        return None
    n, o = int(i.ty[1:]), int(ty[1:])
    return tuple(wrap(wrap(x, o, op != 'zext'), n) for x in t)


def judge(m, rep, i, src, out, t):
    rep.count('tests of results', i)
    if by_sign(out):
        return
    pos = len(set(out[129:])) > 1
    rep.bad(i, 'sign:%s' % m.srcfunc(i), 'the result of the comparison at %s is treated differently for different %s results, although only the sign has a meaning' % (
        m.locstr(src), 'positive' if pos else 'negative'))
