"""Interned expressions used as abstract values by the dataflow engine.

Linear/polynomial normal form over opaque leaves, so that the way an address or
a counter is computed in the source does not matter, only what is computed.
Integer extensions are transparent; counters are taken not to overflow their
type (the narrowing rule N* looks at truncations separately)."""


class E:
    __slots__ = ('id', 'k', 'a', 'leaves', 'w', 'ptee', 'isptr', 'nn', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_byid = []
EMPTY = frozenset()


def _mk(k, a, key, leaves, w=64, ptee=None, isptr=False, nn=False):
    e = _tab.get(key)
    if e is not None:
        if ptee and not e.ptee:
            e.ptee = ptee
        return e
    e = E()
    e.id = len(_byid)
    e.k, e.a, e.leaves, e.w, e.ptee, e.isptr, e.nn = k, a, leaves, w, ptee, isptr, nn
    if leaves is None:
        e.leaves = frozenset((e,))
    _byid.append(e)
    _tab[key] = e
    return e


def K(n):
    return _mk('c', n, ('c', n), EMPTY, nn=(n >= 0))


def SYM(name, w=64, ptee=None, isptr=False):
    return _mk('s', name, ('s', name, w), None, w, ptee, isptr)


def LD(addr, size, epoch, isptr=False, ptee=None):
    """initial/unknown content of memory at addr; epoch distinguishes havocs"""
    key = ('ld', addr.id, size, epoch)
    e = _tab.get(key)
    if e is not None:
        if isptr:
            e.isptr = True
        if ptee and not e.ptee:
            e.ptee = ptee
        return e
    e = _mk('ld', (addr, size, epoch), key, None, size * 8, ptee, isptr)
    e.leaves = frozenset(e.leaves | addr.leaves)
    return e


UNDEF = SYM('undef')


def isk(e):
    return e.k == 'c'


def terms(e):
    """-> (const, {term: coef})"""
    if e.k == 'c':
        return e.a, {}
    if e.k == 'lin':
        return e.a[0], dict(e.a[1])
    return 0, {e: 1}


def fromterms(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return K(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    key = ('lin', c, tuple((t.id, k) for t, k in items))
    e = _tab.get(key)
    if e is not None:
        return e
    lv = frozenset().union(*[t.leaves for t, _ in items])
    w = max(t.w for t, _ in items)
    nn = c >= 0 and all(k > 0 and t.nn for t, k in items)
    return _mk('lin', (c, tuple(items)), key, lv, w, None, False, nn)


def add(a, b):
    ca, da = terms(a)
    cb, db = terms(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return fromterms(ca + cb, da)


def scale(a, k):
    c, d = terms(a)
    return fromterms(c * k, {t: v * k for t, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def _prod(t1, t2):
    f = []
    for t in (t1, t2):
        if t.k == 'mul':
            f.extend(t.a)
        else:
            f.append(t)
    f.sort(key=lambda x: x.id)
    key = ('mul', tuple(x.id for x in f))
    lv = frozenset().union(*[x.leaves for x in f])
    return _mk('mul', tuple(f), key, lv, max(x.w for x in f), None, False, all(x.nn for x in f))


def mul(a, b):
    if isk(a):
        return scale(b, a.a)
    if isk(b):
        return scale(a, b.a)
    ca, da = terms(a)
    cb, db = terms(b)
    out = {}
    cst = 0
    for t, k in da.items():
        if cb:
            out[t] = out.get(t, 0) + k * cb
    for t, k in db.items():
        if ca:
            out[t] = out.get(t, 0) + k * ca
    for t, k in da.items():
        for u, l in db.items():
            p = _prod(t, u)
            for q, d in ((t, u), (u, t)):
                if q.k == 'udiv' and q.a[1] is d:           # d * (n / d) = n - n % d
                    p = None
                    c2, d2 = terms(sub(q.a[0], op('urem', q.a[0], d, w=q.w, nn=True)))
                    cst += k * l * c2
                    for x, j in d2.items():
                        out[x] = out.get(x, 0) + k * l * j
                    break
            if p is not None:
                out[p] = out.get(p, 0) + k * l
    return fromterms(ca * cb + cst, out)


def op(name, *args, w=64, nn=False):
    if name in ('urem', 'udiv') and isk(args[0]) and args[0].a == 0:
        return K(0)
    if name == 'urem' and args[0].k == 'urem' and args[0].a[1] is args[1]:
        return args[0]
    key = (name,) + tuple(a.id if isinstance(a, E) else a for a in args)
    lv = frozenset().union(*[a.leaves for a in args if isinstance(a, E)]) if args else EMPTY
    return _mk(name, args, key, lv, w, None, False, nn)


def zx(e, w):
    """zero extension from w bits"""
    if isk(e):
        return K(e.a & ((1 << w) - 1))
    if w >= 32 or e.nn or e.k == 'b2i':
        return e
    return op('zx', e, w=w, nn=True)


NOTRUNC = False      # sums are taken not to overflow the type they are kept in (rules about sizes and offsets)


def tr(e, w):
    if NOTRUNC and w > 1 and not isk(e):
        return e
    if isk(e):
        v = e.a & ((1 << w) - 1)
        if w > 1 and v >> (w - 1):
            v -= 1 << w
        return K(v)
    if w == 1:
        return ne0(e)
    if e.w <= w:
        if e.k == 'zx' and e.w == w:
            return e.a[0]
        return e
    return op('tr', e, w, w=w)


# ------------------------------------------------------------- conditions
# boolean values are E of kind: c 0/1, eq(D) [D==0], lts(a,b), ltu(a,b), not, and, or, bool opaque
T = K(1)
F = K(0)


def not_(e):
    if isk(e):
        return K(0 if e.a else 1)
    if e.k == 'not':
        return e.a[0]
    return op('not', e, w=1)


def and_(a, b):
    if isk(a):
        return b if a.a else F
    if isk(b):
        return a if b.a else F
    if a is b:
        return a
    return op('band', a, b, w=1)


def or_(a, b):
    if isk(a):
        return T if a.a else b
    if isk(b):
        return T if b.a else a
    if a is b:
        return a
    return op('bor', a, b, w=1)


def b2i(e):
    if isk(e):
        return e
    return op('b2i', e, w=1, nn=True)


def ne0(e):
    return not_(eq(e, K(0)))


BOOLK = ('eq', 'lts', 'ltu', 'not', 'band', 'bor', 'flt', 'bool')


def isbool(e):
    return e.k in BOOLK


def eq(a, b):
    if isk(a) and not isk(b):
        a, b = b, a
    if isbool(a) and isk(b):
        return a if b.a & 1 else not_(a)
    d = sub(a, b)
    if isk(d):
        return T if d.a == 0 else F
    # b2i(x) == k
    c, t = terms(d)
    if len(t) == 1:
        (x, k), = t.items()
        if x.k == 'b2i':
            if c == 0:
                return not_(x.a[0])
            if c == -k:
                return x.a[0]
            return F
        if x.k == 'and' and isk(x.a[1]):
            m = x.a[1].a
            if k == 1 and -c != 0 and -c == m and m & (m - 1) == 0:
                return not_(eq(x, K(0)))
        if x.nn and k != 0 and -c * k < 0 and abs(k) == 1:
            return F
    lead = min(t, key=lambda x: x.id)
    if t[lead] < 0:
        d = scale(d, -1)
    # a difference of two addresses into distinct objects is decided by the engine
    return op('eq', d, w=1)


def lts(a, b):
    if isk(a) and isk(b):
        return T if a.a < b.a else F
    if a is b:
        return F
    if isk(a):                       # c < b  ==  not (b < c+1)
        return not_(lts(b, K(a.a + 1)))
    if isk(b):
        # shift constants: x+k < c  ==  x < c-k  (no overflow assumed)
        c, t = terms(a)
        if c:
            return lts(fromterms(0, t), K(b.a - c))
        if a.k == 'b2i':
            return T if b.a > 1 else (not_(a.a[0]) if b.a == 1 else F)
        if isbool(a):
            a = b2i(a)
        if a.nn:
            if b.a <= 0:
                return F
            return ltu(a, b)
    elif a.nn and b.nn:
        return ltu(a, b)
    return op('lts', a, b, w=1)


def ltu(a, b):
    if isk(a) and isk(b):
        return T if (a.a & (2**64 - 1)) < (b.a & (2**64 - 1)) else F
    if a is b:
        return F
    if isk(a):
        if a.a == 0:
            return ne0(b)
        if a.a < 0:
            return F if a.a == -1 else op('ltu', a, b, w=1)
        return not_(ltu(b, K(a.a + 1)))
    if isk(b):
        if b.a == 0:
            return F
        if b.a == 1:
            return eq(a, K(0))
        if a.k == 'b2i':
            return T if (b.a < 0 or b.a > 1) else not_(a.a[0])
    return op('ltu', a, b, w=1)


def cmp(pred, a, b, w=32):
    if pred == 'eq':
        return eq(a, b)
    if pred == 'ne':
        return not_(eq(a, b))
    if pred[0] == 'u':
        if w < 64:
            if isk(a) and a.a < 0:
                a = K(a.a & ((1 << w) - 1))
            if isk(b) and b.a < 0:
                b = K(b.a & ((1 << w) - 1))
        f = ltu
    else:
        f = lts
    p = pred[1:]
    if p == 'lt':
        return f(a, b)
    if p == 'gt':
        return f(b, a)
    if p == 'le':
        return not_(f(b, a))
    if p == 'ge':
        return not_(f(a, b))
    raise ValueError(pred)


# ------------------------------------------------------------- utilities
def subst(e, m):
    """replace leaves/terms of e according to m (dict E->E)"""
    if e in m:
        return m[e]
    if not m or not (e.leaves & frozenset().union(*[k.leaves for k in m])):
        return e
    return _subst(e, m)


def _subst(e, m):
    if e in m:
        return m[e]
    k = e.k
    if k == 'c' or k == 's':
        return e
    if k == 'lin':
        r = K(e.a[0])
        for t, c in e.a[1]:
            r = add(r, scale(_subst(t, m), c))
        return r
    if k == 'mul':
        r = K(1)
        for t in e.a:
            r = mul(r, _subst(t, m))
        return r
    if k == 'ld':
        ad = _subst(e.a[0], m)
        return e if ad is e.a[0] else LD(ad, e.a[1], e.a[2], e.isptr, e.ptee)
    return rebuild(e, [_subst(x, m) if isinstance(x, E) else x for x in e.a])


ORIGIN = {}      # join symbol -> leaves its possible values are computed from
_weight = {}


def origins(e):
    o = set()
    for l in e.leaves:
        o.add(l)
        o |= ORIGIN.get(l, EMPTY)
    return frozenset(o)


def weight(e):
    w = _weight.get(e.id)
    if w is None:
        if e.k in ('c', 's', 'ld'):
            w = 1
        elif e.k == 'lin':
            w = 1 + sum(weight(t) for t, _ in e.a[1])
        else:
            w = 1 + sum(weight(x) for x in e.a if isinstance(x, E))
        _weight[e.id] = w
    return w


def rebuild(e, args):
    """e with its operands replaced"""
    k = e.k
    if k == 'not':
        return not_(args[0])
    if k == 'eq':
        return eq(args[0], K(0))
    if k == 'lts':
        return lts(*args)
    if k == 'ltu':
        return ltu(*args)
    if k == 'band':
        return and_(*args)
    if k == 'bor':
        return or_(*args)
    if k == 'b2i':
        return b2i(args[0])
    if k == 'zx':
        return zx(args[0], e.w)
    if k == 'tr':
        return tr(args[0], e.w)
    if k in ('urem', 'udiv', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        return binop(k, args[0], args[1], e.w)
    return op(k, *args, w=e.w, nn=e.nn)


def binop(o, a, b, w=32):
    if o == 'add':
        return add(a, b)
    if o == 'sub':
        return sub(a, b)
    if o == 'mul':
        return mul(a, b)
    if isk(a) and isk(b):
        x, y = a.a, b.a
        M = (1 << w) - 1
        try:
            if o == 'and':
                return K(x & y)
            if o == 'or':
                return K(x | y)
            if o == 'xor':
                return K(x ^ y)
            if o == 'shl':
                return tr(K(x << y), w) if y < w else UNDEF
            if o == 'lshr':
                return K((x & M) >> y)
            if o == 'ashr':
                return K(x >> y)
            if o == 'udiv' and y:
                return K((x & M) // (y & M))
            if o == 'urem' and y:
                return K((x & M) % (y & M))
            if o in ('sdiv', 'srem') and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return K(q) if o == 'sdiv' else K(x - q * y)
        except Exception:
            pass
    if o == 'shl' and isk(b) and 0 <= b.a < 63:
        return scale(a, 1 << b.a)
    if o == 'and':
        if isk(a):
            a, b = b, a
        if isk(b):
            if b.a == 0:
                return K(0)
            if b.a == -1:
                return a
            if isbool(a) and b.a == 1:
                return a
            return op('and', a, b, w=max(1, b.a.bit_length()) if b.a >= 0 else 64, nn=b.a >= 0)
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return op('and', a, b, w=max(a.w, b.w), nn=a.nn or b.nn)
    if o == 'or':
        if isk(a):
            a, b = b, a
        if isk(b) and b.a == 0:
            return a
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return op('or', a, b, w=max(a.w, b.w), nn=a.nn and b.nn)
    if o == 'xor':
        if isk(a):
            a, b = b, a
        if isk(b) and b.a == -1 and w == 1:
            return not_(a)
        if isk(b) and b.a == 0:
            return a
        return op('xor', a, b, w=w)
    if o in ('udiv', 'sdiv') and isk(b) and b.a == 1:
        return a
    if o in ('sdiv', 'srem') and a.nn and b.nn:
        o = 'u' + o[1:]
    if o == 'urem':
        return op('urem', a, b, w=min(w, b.w) if b.w else w, nn=True)
    if o == 'udiv':
        return op('udiv', a, b, w=min(w, a.w), nn=True)
    return op(o, a, b, w=w)


def show(e, d=0):
    if d > 8:
        return '..'
    k = e.k
    if k == 'c':
        return str(e.a)
    if k == 's':
        n = e.a
        if isinstance(n, str):
            return n
        if n[0] == 'p':
            return n[1]
        return ':'.join(str(x) for x in n)
    if k == 'ld':
        fn = FIELDNAME(e.a[0])
        ep = '' if not e.a[2] else '\'%s' % (e.a[2],)
        if fn:
            return '%s->%s%s' % (show(fn[2], d + 1), fn[1], ep)
        return '[%s]%s%s' % (show(e.a[0], d + 1), e.a[1], ep)
    if k == 'lin':
        s = ''
        for t, c in e.a[1]:
            s += (' + ' if c > 0 else ' - ') if s else ('' if c > 0 else '-')
            s += ('' if abs(c) == 1 else '%d*' % abs(c)) + show(t, d + 1)
        if e.a[0]:
            s += ' %+d' % e.a[0]
        return '(' + s + ')'
    if k == 'mul':
        return '*'.join(show(t, d + 1) for t in e.a)
    if k == 'zx':
        return show(e.a[0], d)
    if k == 'not':
        return '!' + show(e.a[0], d + 1)
    if k == 'eq':
        return '(%s == 0)' % show(e.a[0], d + 1)
    if k == 'lts' or k == 'ltu':
        return '(%s <%s %s)' % (show(e.a[0], d + 1), k[2], show(e.a[1], d + 1))
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) if isinstance(x, E) else str(x) for x in e.a))


# field naming (set per module by the engine)
_module = [None]
_hints = {}


def set_module(m):
    _module[0] = m
    _hints.clear()


def root_of(addr):
    """pointer term an address is based on, or None"""
    if addr.k == 'lin':
        best = None
        for t, c in addr.a[1]:
            if c == 1 and t.isptr:
                if best is None:
                    best = t
                else:
                    return None
        return best
    if addr.isptr:
        return addr
    return None


def FIELDNAME(addr):
    """address -> (struct, field, base) if it is a member of a known struct"""
    c, t = terms(addr)
    base = fromterms(0, t)
    st = _hints.get(base)
    if st is None:
        if base.isptr and base.ptee:
            st = base.ptee
        elif base.k == 'lin':
            r = root_of(base)
            if r is not None and r.ptee:
                st = r.ptee
    if st is None:
        return None
    m = _module[0]
    f = m.field_at(st, c) if m else None
    if f is None:
        return None
    return st, f[0], base


def hint(base, struct):
    c, t = terms(base)
    if c == 0:
        b = fromterms(0, t)
        if b not in _hints:
            _hints[b] = struct
