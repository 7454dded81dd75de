"""Path-sensitive abstract interpretation over the inlined IR.

A forward dataflow analysis to a fixpoint.  The abstract value of an SSA name
or memory cell is a normalised expression over entry values (expr.py); the
abstract state also carries branch facts (bounds on linear terms), and the
typestate (`auto`) of the rule being checked.  States are partitioned per block
by (typestate, configuration-flag facts, constant-valued flags) and joined
inside a partition, so the analysis covers all paths, all loop iterations and
all results of the storage operations; nothing is executed and no solver is
involved.

Rules subclass Rule and get events."""
import heapq, os, time
from . import expr as X
from .expr import K, SYM, LD, UNDEF
from .ir import loops_of, rpo

INF = float('inf')


class EngineError(Exception):
    pass


class State:
    __slots__ = ('env', 'mem', 'ep', 'bd', 'ba', 'auto', 'tr', 'tmp')

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ep = dict(self.ep)
        s.bd = dict(self.bd)
        s.ba = dict(self.ba)
        s.auto = self.auto
        s.tr = self.tr
        s.tmp = None
        return s

    # ------------------------------------------------------------- facts
    def val(self, e):
        """simplify e using terms known to be constant"""
        if X.isk(e):
            return e
        if not self.bd:
            return e
        m = None
        for lf in self._interesting(e):
            b = self.bd.get(lf)
            if b and b[0] == b[1]:
                m = m or {}
                m[lf] = K(int(b[0]))
        return X._subst(e, m) if m else e

    def _interesting(self, e):
        out = []
        st = [e]
        while st:
            x = st.pop()
            if x.k == 'c':
                continue
            if x.k == 'lin':
                st.extend(t for t, _ in x.a[1])
                continue
            out.append(x)
            if x.k == 'mul':
                st.extend(x.a)
            elif x.k not in ('s', 'ld'):
                st.extend(y for y in x.a if isinstance(y, X.E))
        return out

    def bounds(self, d):
        """interval of linear expression d (an E)"""
        c, t = X.terms(d)
        if not t:
            return c, c, ()
        d0, s = canon(t)
        lo, hi, exc = self.bd.get(d0, (-INF, INF, ()))
        # interval arithmetic over the terms
        l2 = h2 = 0
        for x, k in X.terms(d0)[1].items():
            b = self.bd.get(x, (-INF, INF, ())) if len(t) > 1 or k != 1 else (-INF, INF, ())
            xl, xh = b[0], b[1]
            if x.nn:
                xl = max(xl, 0)
            if k > 0:
                l2 += k * xl
                h2 += k * xh
            else:
                l2 += k * xh
                h2 += k * xl
        if l2 != l2:
            l2 = -INF
        if h2 != h2:
            h2 = INF
        if len(t) == 2:
            # a remainder is less than what was divided by
            for x, k in d0.a[1]:
                if x.k == 'urem' and X.terms(d0)[1].get(x.a[1]) == -k:
                    if k > 0:
                        h2 = min(h2, -k)
                    else:
                        l2 = max(l2, -k)
        lo, hi = max(lo, l2), min(hi, h2)
        if s < 0:
            lo, hi, exc = -hi, -lo, tuple(-x for x in exc)
        return lo + c, hi + c, tuple(x + c for x in exc)

    def known(self, b):
        """truth of boolean E b in this state: True / False / None"""
        k = b.k
        if k == 'c':
            return bool(b.a)
        if k == 'not':
            r = self.known(b.a[0])
            return None if r is None else not r
        if k == 'band':
            r, q = self.known(b.a[0]), self.known(b.a[1])
            if r is False or q is False:
                return False
            if r and q:
                return True
            return self.ba.get(b)
        if k == 'bor':
            r, q = self.known(b.a[0]), self.known(b.a[1])
            if r or q:
                return True
            if r is False and q is False:
                return False
            return self.ba.get(b)
        if k == 'eq':
            d = b.a[0]
            r = self._keq(d)
            if r is None and d.k == 'lin':
                d2 = self.val(d)
                if d2 is not d:
                    r = self._keq(d2)
            return r
        if k in ('lts', 'ltu'):
            r = self._klt(b.a[0], b.a[1], k)
            if r is None:
                a, c = self.val(b.a[0]), self.val(b.a[1])
                if a is not b.a[0] or c is not b.a[1]:
                    q = (X.lts if k == 'lts' else X.ltu)(a, c)
                    if X.isk(q):
                        return bool(q.a)
                    if q.k == k:
                        r = self._klt(q.a[0], q.a[1], k)
            return r
        return self.ba.get(b)

    def _keq(self, d):
        if X.isk(d):
            return d.a == 0
        lo, hi, exc = self.bounds(d)
        if lo > 0 or hi < 0 or 0 in exc:
            return False
        if lo == hi == 0:
            return True
        if ptr_nonnull(d):
            return False
        return None

    def _klt(self, a, b, k):
        if k == 'ltu' and X.isk(b) and b.a < 0:
            r = self._keq(X.sub(a, b)) if b.a == -1 else None
            return None if r is None else not r
        lo, hi, exc = self.bounds(X.sub(a, b))
        if hi <= -1:
            return True
        if lo >= 0:
            return False
        return None

    def assume(self, b, truth=True):
        """add a fact; False if contradictory"""
        k = b.k
        if k == 'c':
            return bool(b.a) == truth
        if k == 'not':
            return self.assume(b.a[0], not truth)
        r = self.known(b)
        if r is not None:
            return r == truth
        if k == 'band':
            if truth:
                return self.assume(b.a[0], True) and self.assume(b.a[1], True)
            if self.known(b.a[0]) is True:
                return self.assume(b.a[1], False)
            if self.known(b.a[1]) is True:
                return self.assume(b.a[0], False)
            self.ba[b] = truth
            return True
        if k == 'bor':
            if not truth:
                return self.assume(b.a[0], False) and self.assume(b.a[1], False)
            if self.known(b.a[0]) is False:
                return self.assume(b.a[1], True)
            if self.known(b.a[1]) is False:
                return self.assume(b.a[0], True)
            self.ba[b] = truth
            return True
        if k == 'eq':
            self._add(b.a[0], 0, 0, None) if truth else self._add(b.a[0], None, None, 0)
            return True
        if k in ('lts', 'ltu'):
            if k == 'ltu' and X.isk(b.a[1]) and b.a[1].a < 0:
                if b.a[1].a == -1:
                    return self.assume(X.eq(b.a[0], b.a[1]), not truth)
                self.ba[b] = truth
                return True
            d = X.sub(b.a[0], b.a[1])
            if truth:
                self._add(d, None, -1, None)
            else:
                self._add(d, 0, None, None)
            return True
        self.ba[b] = truth
        return True

    def _add(self, d, lo, hi, exc):
        c, t = X.terms(d)
        d0, s = canon(t)
        if lo is not None:
            lo -= c
        if hi is not None:
            hi -= c
        if exc is not None:
            exc -= c
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            exc = None if exc is None else -exc
        # gcd normalisation for single terms with coefficient
        l, h, e = self.bd.get(d0, (-INF, INF, ()))
        if len(X.terms(d0)[1]) == 1 and d0.nn:
            l = max(l, 0)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if exc is not None and exc not in e:
            e = e + (exc,)
        ch = True
        while ch:
            ch = False
            if l in e:
                l += 1
                ch = True
            if h in e:
                h -= 1
                ch = True
        e = tuple(sorted(x for x in e if l < x < h))
        self.bd[d0] = (l, h, e)

    def eq(self, a, b):
        return self.known(X.eq(a, b)) is True

    def ne(self, a, b):
        return self.known(X.eq(a, b)) is False


def ptr_nonnull(d):
    """a difference that is just (address based on a fresh object) is nonzero"""
    if d.k == 's' and d.isptr and isinstance(d.a, tuple) and d.a[0] in ('alloca', 'obj', 'glob'):
        return True
    if d.k == 'lin':
        ps = [(t, k) for t, k in d.a[1] if t.isptr]
        if len(ps) == 1 and ps[0][0].k == 's' and isinstance(ps[0][0].a, tuple) and ps[0][0].a[0] in ('alloca', 'obj', 'glob'):
            return True
        # p + nonneg const offset with p a pointer: a member address
        if len(d.a[1]) == 1 and d.a[1][0][0].isptr and d.a[1][0][1] == 1 and d.a[0] > 0:
            return True
        # base pointer plus symbolic offset: an interior address
        if len(ps) == 1 and ps[0][1] in (1, -1) and len(d.a[1]) > 1:
            return True
        if len(ps) == 2 and {ps[0][1], ps[1][1]} == {1, -1}:
            r = [p for p, _ in ps if p.k == 's' and isinstance(p.a, tuple) and p.a[0] in ('alloca', 'obj', 'glob')]
            if r:
                return True
    return False


_canon = {}


def canon(t):
    key = tuple(sorted((x.id, k) for x, k in t.items()))
    r = _canon.get(key)
    if r is None:
        lead = min(t, key=lambda x: x.id)
        s = 1 if t[lead] > 0 else -1
        d0 = X.fromterms(0, {x: k * s for x, k in t.items()})
        r = _canon[key] = (d0, s)
    return r


# ---------------------------------------------------------------- events
class Ev:
    """a call event"""
    __slots__ = ('inst', 'kind', 'name', 'args', 'callee', 'res', 'info')

    def __init__(self, inst, kind, name, args, callee):
        self.inst, self.kind, self.name, self.args, self.callee = inst, kind, name, args, callee
        self.res = None
        self.info = {}


class Violation:
    def __init__(self, inst, msg, st, fn, key=None, module=None):
        self.loc = module.locstr(inst) if module else '?'
        self.srcfn = module.srcfunc(inst) if module else '?'
        self.entry = fn.name
        self.msg = msg
        self.key = key or msg
        self.path = path_of(st, module) if st is not None else []


def path_of(st, m, n=24):
    out = []
    t = st.tr
    while t is not None and len(out) < n:
        inst, what, t = t
        out.append('%s: %s' % (m.locstr(inst), what))
    out.reverse()
    return out


class Rule:
    name = 'rule'
    fork_malloc = False
    fork_cmp = False
    fork_file = True
    ptrjoin = False         # join pointers into one object as base + joined offset
    flags_needed = frozenset()   # configuration flags the rule itself consults at exits
    PURE = ()                # further functions without side effects
    SUMMARY = ()             # functions kept out of line whose effects on_effects() models
    valuekeys = False        # never join states with different live values (small functions without loops)
    linrel = False           # carry linear relations through joins of joined values (small functions)
    strict_flags = True      # keep configuration flag facts in the partition key

    def __init__(self):
        self.viol = []
        self.tviol = 0           # when the first violation was found
        self.seen = set()
        self.counts = {}

    def count(self, what, inst=None):
        s = self.counts.setdefault(what, set())
        s.add((inst.fn.name, inst.id) if inst is not None and not isinstance(inst, str) else inst if inst is not None else len(s))

    def report(self, eng, inst, msg, st, key=None):
        v = Violation(inst, msg, st, eng.fn, key, eng.m)
        k = (v.loc, v.key, v.entry)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append(v)

    # hooks -----------------------------------------------------------
    def start(self, eng, st):
        st.auto = ()

    def on_file(self, eng, st, ev):
        """after fork; ev.res is K(0)/K(1)"""

    def before_file(self, eng, st, ev):
        """before the operation takes effect"""

    def on_call(self, eng, st, ev):
        """other calls; may set ev.res"""

    def on_store(self, eng, st, inst, addr, size, val, old):
        pass

    def on_copy(self, eng, st, inst, dst, src, n):
        pass

    def on_fill(self, eng, st, inst, dst, byte, n):
        pass

    undefjoin = False       # a value that is unset on one of the paths that join is unset

    def on_branch(self, eng, st, inst):
        pass

    def on_assume(self, eng, st, inst):
        pass

    def on_enter(self, eng, st, block):
        pass

    def on_load(self, eng, st, inst, addr, size, val):
        pass

    def on_sext(self, eng, st, inst, e):
        return e

    def on_bin(self, eng, st, inst, op, a, b):
        pass

    def on_ret(self, eng, st, inst, val):
        pass


FILEOPS = {'read', 'write', 'erase', 'open', 'close', 'flush'}
PURE_EXT = {'fabs', 'floor', 'ceil', 'pow', 'log2', 'round', 'llvm.fabs.f64', 'llvm.fmuladd.f32', 'llvm.fmuladd.f64',
            'llvm.floor.f64', 'llvm.ceil.f64', 'strlen', 'abs', 'llvm.abs.i32', 'memcmp'}
PRINTS = {'printf', 'puts', 'putchar', 'fprintf', 'sprintf'}


class FnInfo:
    """per-function precomputation"""

    def __init__(self, m, fn):
        self.fn = fn
        self.loops, self.dom = loops_of(fn)
        # reverse postorder in which loop bodies come before loop exits
        inner = {}
        for h, body in sorted(self.loops.items(), key=lambda x: -len(x[1])):
            for b in body:
                inner.setdefault(b, []).append(body)
        order = rpo(fn, lambda b: sorted(b.succs, key=lambda t: sum(t in body for body in inner.get(b, ()))))
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.domby = {h: [b for b in order if b is not h and h in self.dom.get(b, ())] for h in self.loops}
        self.last = {h: max(self.rpo[b] for b in body if b in self.rpo) for h, body in self.loops.items() if h in self.rpo}
        self.live = self.liveness()
        self.mergephis = {p.res for b in order if b not in self.loops for p in b.phis}
        self.flagphis = self._flagphis()
        self.future = self._future()
        self.fill = {}
        for h, body in self.loops.items():
            f = self.fillloop(h, body)
            if f:
                self.fill[h] = f

    def liveness(self):
        use, de = {}, {}
        for b in self.order:
            u, d = set(), set()
            for p in b.phis:
                d.add(p.res)
            for i in b.insts:
                for v in operands(i):
                    if v.startswith('%') and v not in d:
                        u.add(v)
                if i.res:
                    d.add(i.res)
            use[b], de[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in b.succs:
                    o |= live[s] - {p.res for p in s.phis}
                    for p in s.phis:
                        for v, pb in p.a:
                            if pb == b.name and v.startswith('%'):
                                o.add(v)
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # live-in including phi results used
        return live

    def _future(self):
        """flag masks still tested from the start of each block on"""
        own = {}
        for b in self.order:
            ms = set()
            for i in b.insts:
                if i.op == 'bin' and i.a[0] == 'and':
                    for v in i.a[1:]:
                        if v.lstrip('-').isdigit() and int(v) > 0 and int(v) & (int(v) - 1) == 0:
                            ms.add(int(v))
            own[b] = ms
        fut = {b: set(own[b]) for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                n = len(fut[b])
                for s in b.succs:
                    fut[b] |= fut[s]
                if len(fut[b]) != n:
                    ch = True
        return fut

    def _flagphis(self):
        """phis (transitively) fed by constants and not by arithmetic on themselves"""
        bad = set()
        defs = self.fn.defs
        res = set()
        memo = {}

        def leaves(v, seen):
            if v in seen:
                return True
            seen.add(v)
            if not v.startswith('%'):
                return True
            d = defs.get(v)
            if d is None:
                return True           # parameter
            if d.op == 'phi':
                return all(leaves(x, seen) for x, _ in d.a)
            if d.op == 'select':
                return leaves(d.a[1], seen) and leaves(d.a[2], seen)
            if d.op == 'cast':
                return leaves(d.a[2], seen)
            if d.op == 'bin':
                return None           # arithmetic
            return True
        for b in self.order:
            for p in b.phis:
                if not any(not v.startswith('%') for v, _ in p.a) and False:
                    continue
                if p.ty in ('float', 'double'):
                    continue
                if b in self.loops:
                    r = leaves(p.res, set())
                    if r is not True:
                        continue
                res.add(p.res)
        # results of storage operations, until they are tested
        for b in self.order:
            for i in b.insts:
                if i.op == 'call' and i.res:
                    res.add(i.res)
                elif i.op == 'cast' and i.a[2] in res or i.op == 'icmp' and i.a[1] in res and not i.a[2].startswith('%'):
                    res.add(i.res)
        return res

    def fillloop(self, h, body):
        """recognise `for (i..) base[i] = const` and `base[i] = src[i]` byte loops.
        -> dict or None"""
        calls = [i for b in body for i in b.insts if i.op == 'call']
        if calls:
            return None
        stores = [i for b in body for i in b.insts if i.op == 'store']
        loads = [i for b in body for i in b.insts if i.op == 'load']
        if len(stores) != 1:
            return None
        exits = [(b, s) for b in body for s in b.succs if s not in body]
        if len(exits) != 1:
            return None
        eb, es = exits[0]
        if eb.term.op != 'cbr':
            return None
        return {'store': stores[0], 'exit': (eb, es), 'body': body, 'loads': loads}


def operands(i):
    o = i.op
    if o == 'load':
        return (i.a,)
    if o in ('store',):
        return i.a
    if o == 'gep':
        return (i.a[0],) + tuple(v for _, v in i.a[1])
    if o in ('bin', 'icmp', 'fcmp'):
        return i.a[1:]
    if o == 'cast':
        return (i.a[2],)
    if o == 'select':
        return i.a
    if o == 'cbr':
        return (i.a[0],)
    if o == 'switch':
        return (i.a[0],)
    if o == 'ret':
        return (i.a,) if i.a else ()
    if o == 'call':
        return (i.a[0],) + tuple(v for _, v in i.a[1])
    if o == 'extractvalue':
        return (i.a[0],)
    if o == 'alloca' or o == 'br' or o == 'unreachable':
        return ()
    if o == 'phi':
        return tuple(v for v, _ in i.a)
    raise EngineError(o)


_fninfo = {}


class Engine:
    MAXPART = 600
    MAXSTEPS = 1000000

    def __init__(self, m, fn, rule, presets=None, init=None):
        if isinstance(fn, str):
            if fn not in m.funcs:
                raise EngineError('function %s not found' % fn)
            fn = m.funcs[fn]
        self.m, self.fn, self.rule = m, fn, rule
        k = (id(m), fn.name)
        if k not in _fninfo:
            _fninfo[k] = FnInfo(m, fn)
        self.fi = _fninfo[k]
        self.kcache = {}
        self.init = init
        self.steps = 0
        self.nparts = 0
        self.coarse = set()
        self.rets = 0
        self.layout_gep = {}

    # ------------------------------------------------------------ values
    def konst(self, s, ty=None):
        r = self.kcache.get((s, ty))
        if r is None:
            if s in ('null', 'false', 'zeroinitializer'):
                r = K(0)
            elif s == 'true':
                r = K(1)
            elif s in ('undef', 'poison'):
                r = UNDEF
            elif s[0] == '@':
                r = SYM(('glob', s[1:]), 64, None, True)
            elif ty in ('float', 'double', 'x86_fp80'):
                r = X.op('fk', s)
            else:
                try:
                    r = K(int(s))
                except ValueError:
                    r = SYM(('cexpr', s), 64, None, True)
            self.kcache[(s, ty)] = r
        return r

    def ev(self, st, s, ty=None):
        if s[0] == '%':
            r = st.env.get(s)
            if r is None:
                raise EngineError('%s: no value for %s' % (self.fn.name, s))
            return r
        return self.konst(s, ty)

    # ------------------------------------------------------------ memory
    def split(self, addr):
        """-> (root, offset E)"""
        r = X.root_of(addr)
        if r is None:
            return None, addr
        if r is addr:
            return r, K(0)
        return r, X.sub(addr, r)

    def slot(self, off):
        """page-slot of an offset in the page buffer: coefficient of the pageSize
        term, or None if it has none/other.  -> (slot const or None, rest)"""
        if X.isk(off):
            return 0, off
        c, t = X.terms(off)
        for x, k in t.items():
            if x.k == 'ld':
                f = X.FIELDNAME(x.a[0])
                if f and f[1] == 'pageSize':
                    t2 = dict(t)
                    del t2[x]
                    return k, X.fromterms(c, t2)
        return 0, off

    def region(self, root, off):
        if root is None:
            return None
        if self.isbuf(root):
            s, rest = self.slot(off)
            return (root, s)
        return (root, 0)

    def isbuf(self, root):
        if root.k == 'ld':
            f = X.FIELDNAME(root.a[0])
            return bool(f and f[0] == 'embedDBState' and f[1] == 'buffer')
        return False

    def load(self, st, addr, size, isptr=False):
        root, off = self.split(addr)
        cells = st.mem.get(root) if root is not None else None
        if cells:
            c = cells.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
                if c[0] > size and X.isk(c[1]):
                    return X.tr(c[1], size * 8)
                if c[0] > size:
                    return X.tr(c[1], size * 8)
            # partially overlapping constant-offset cells
            if X.isk(off):
                for d in range(off.a - 15, off.a + size):
                    c = cells.get(K(d))
                    if c and d != off.a and d + c[0] > off.a:
                        return self.fresh(st, ('mix', addr.id, size, c[1].id), size * 8, isptr)
        if root is None:
            return SYM(('opaque', addr.id, size), size * 8, None, isptr)
        ep = self.epoch(st, root, off)
        if root.k == 's' and isinstance(root.a, tuple) and root.a[0] == 'alloca' and ep == 0:
            return UNDEF
        ptee = None
        f = X.FIELDNAME(addr)
        if f:
            fl = self.m.field_at(f[0], X.terms(addr)[0])
            if fl and fl[2]:
                ptee = fl[2]
        v = LD(addr, size, ep, isptr or bool(ptee), ptee)
        return v

    def epoch(self, st, root, off):
        reg = self.region(root, off)
        e = st.ep.get(reg)
        g = st.ep.get((root, None))
        if e is None and g is None:
            return 0
        if self.isbuf(root):
            hdr = X.isk(self.slot(off)[1])
            if e is not None and e[0] == 'rec':
                return (e, g) if not hdr else ((e[2], g) if (e[2] or g) else 0)
        return (e, g)

    def cells_of(self, st, root):
        return st.mem.get(root, {})

    def store(self, st, addr, size, val):
        """size int; returns old value"""
        root, off = self.split(addr)
        if root is None:
            return None
        cells = dict(st.mem.get(root, {}))
        old = cells.get(off)
        oldv = old[1] if old and old[0] == size else None
        if X.isk(off):
            o = off.a
            for d in range(o - 15, o + size):
                k = K(d)
                c = cells.get(k)
                if c and d != o and d + c[0] > o:
                    cells[k] = (c[0], self.fresh(st, ('clob', addr.id, size, d), c[0] * 8))
            if old and old[0] > size:
                for d in range(1, 16):
                    pass
            cells[off] = (size, val)
        else:
            buf = self.isbuf(root)
            if buf:
                s, rest = self.slot(off)
                # non-constant offset inside a page slot: record area
                if not X.isk(rest):
                    for k in list(cells):
                        s2, r2 = self.slot(k)
                        if s2 == s and not X.isk(r2) and k is not off:
                            del cells[k]
                    st.mem[root] = cells
                    self.bump_rec(st, root, s, ('st', addr.id, size))
                    cells = dict(st.mem.get(root, {}))
                else:
                    o = rest.a
                    for k in list(cells):
                        s2, r2 = self.slot(k)
                        if s2 == s and X.isk(r2) and k is not off:
                            c = cells[k]
                            if r2.a < o + size and o < r2.a + c[0]:
                                del cells[k]
            else:
                # unknown offset in some other object: forget its cells
                cells = {}
                st.ep[(root, 0)] = ('st', addr.id, self.epoch_id(st.ep.get((root, 0))))
            cells[off] = (size, val)
        st.mem[root] = cells
        return oldv

    def epoch_id(self, e):
        return 0 if e is None else 1

    def bump_rec(self, st, root, slot, why):
        e = st.ep.get((root, slot))
        hdr = None
        if e is not None:
            hdr = e[2] if e[0] == 'rec' else e
        st.ep[(root, slot)] = ('rec', self.serial(), hdr)

    # ghost variables: kept by a rule in the abstract state, joined like memory
    def ghost(self, st, name, val=None):
        r = SYM(('ghost', name), 64, None, True)
        if val is not None:
            st.mem[r] = {K(0): (8, val)}
            return val
        c = st.mem.get(r)
        return c[K(0)][1] if c else None

    _ser = 0

    def serial(self):
        # deterministic per instruction: epochs are re-created identically on re-analysis
        return (self.cur.id if self.cur is not None else 0, self.curk)

    def havoc_slot(self, st, root, slot, tag):
        cells = st.mem.get(root)
        if cells:
            st.mem[root] = {k: c for k, c in cells.items() if self.slot(k)[0] != slot}
        st.ep[(root, slot)] = (tag, self.serial())

    def havoc_root(self, st, root, tag):
        st.mem.pop(root, None)
        st.ep[(root, None)] = (tag, self.serial())
        for k in list(st.ep):
            if k[0] is root and k[1] is not None:
                del st.ep[k]

    def fresh(self, st, tag, w=64, isptr=False, ptee=None):
        s = SYM(('v', self.fn.name, self.cur.id if self.cur is not None else 0, self.curk) + (tag if isinstance(tag, tuple) else (tag,)), w, ptee, isptr)
        self.purge(st, s)
        return s

    def purge(self, st, s):
        """symbol s is (re)defined: forget what was known of its previous instance"""
        for d in [d for d in st.bd if s in d.leaves]:
            del st.bd[d]
        for d in [d for d in st.ba if s in d.leaves]:
            del st.ba[d]
        o = None
        for root, cells in list(st.mem.items()):
            for k, (n, v) in cells.items():
                if s in v.leaves:
                    if o is None:
                        o = SYM(('old', s.id), s.w, s.ptee, s.isptr)
                    cells = dict(cells)
                    cells[k] = (n, X.subst(v, {s: o}))
                    st.mem[root] = cells

    # -------------------------------------------------------------- copies
    def do_copy(self, st, inst, dst, src, n):
        """memcpy semantics"""
        self.rule.on_copy(self, st, inst, dst, src, n)
        droot, doff = self.split(dst)
        sroot, soff = self.split(src)
        if droot is None:
            return
        nk = X.isk(n)
        if nk and n.a in (1, 2, 4, 8):
            v = self.load(st, src, n.a)
            old = self.store(st, dst, n.a, v)
            self.rule.on_store(self, st, inst, dst, n.a, v, old)
            return
        # whole page slot copied
        if self.isbuf(droot):
            ds, drest = self.slot(doff)
            f = X.FIELDNAME(n.a[0]) if n.k == 'ld' else None
            if f and f[1] == 'pageSize' and X.isk(drest) and drest.a == 0:
                self.havoc_slot(st, droot, ds, 'copy')
                if sroot is droot:
                    ss, srest = self.slot(soff)
                    if X.isk(srest) and srest.a == 0:
                        cells = dict(st.mem.get(droot, {}))
                        ps = n
                        for k, c in list(cells.items()):
                            s2, r2 = self.slot(k)
                            if s2 == ss and X.isk(r2):
                                cells[X.add(X.scale(ps, ds), r2)] = c
                        for o, z in ((0, 4), (4, 2)):
                            k = X.add(X.scale(ps, ds), K(o))
                            if k not in cells:
                                a2 = X.add(src, K(o))
                                cells[k] = (z, self.load(st, a2, z))
                        st.mem[droot] = cells
                return
            if X.isk(drest):
                cells = st.mem.get(droot)
                if cells:
                    def hit(k, c):
                        s2, r2 = self.slot(k)
                        if s2 != ds or not X.isk(r2):
                            return False
                        return r2.a + c[0] > drest.a and not (nk and r2.a >= drest.a + n.a)
                    st.mem[droot] = {k: c for k, c in cells.items() if not hit(k, c)}
                e = st.ep.get((droot, ds))
                st.ep[(droot, ds)] = ('hdrcpy', self.serial())
                # the count/id cells below the copied range keep their value
                return
            self.bump_rec(st, droot, ds, ('cp', dst.id))
            cells = st.mem.get(droot)
            if cells:
                st.mem[droot] = {k: c for k, c in cells.items()
                                 if self.slot(k)[0] != ds or X.isk(self.slot(k)[1])}
            return
        # symbolic-size copy into a scalar object (e.g. keySize bytes into a uint64_t)
        if X.isk(doff) and droot.k == 's' and isinstance(droot.a, tuple) and droot.a[0] in ('alloca',) or \
                (X.isk(doff) and X.FIELDNAME(dst)):
            size = self.objsize(dst, droot)
            blob = X.op('blob', src, n, self.hashable(self.epoch(st, sroot, soff)) if sroot is not None else 0, w=64)
            blob.nn = True
            # content of the source cell if it is known exactly
            if sroot is not None:
                c = st.mem.get(sroot, {}).get(soff)
                if c is not None and c[1].k == 'blob':
                    blob = c[1]
            old = self.store(st, dst, size, blob)
            self.rule.on_store(self, st, inst, dst, size, blob, old)
            return
        keep = {k: c for k, c in st.mem.get(droot, {}).items() if X.isk(doff) and X.isk(k) and k.a + c[0] <= doff.a}
        self.havoc_root(st, droot, 'cp')
        if keep:
            st.mem[droot] = keep     # what lies in front of the copy

    def hashable(self, e):
        return repr(e)

    def objsize(self, dst, root):
        f = X.FIELDNAME(dst)
        if f:
            fl = self.m.field_at(f[0], X.terms(dst)[0])
            return fl[1]
        if root.k == 's' and root.a[0] == 'alloca':
            return min(8, self.allocasz.get(root, 8))
        return 8

    def do_fill(self, st, inst, dst, byte, n):
        self.rule.on_fill(self, st, inst, dst, byte, n)
        root, off = self.split(dst)
        if root is None:
            return
        zero = X.isk(byte) and byte.a == 0
        if self.isbuf(root):
            s, rest = self.slot(off)
            f = X.FIELDNAME(n.a[0]) if n.k == 'ld' else None
            if f and f[1] == 'pageSize' and X.isk(rest) and rest.a == 0:
                self.havoc_slot(st, root, s, 'fill%s' % (byte.a if X.isk(byte) else '?'))
                if zero:
                    cells = dict(st.mem.get(root, {}))
                    for o, z in ((0, 4), (4, 2), (8, 4)):
                        cells[X.add(off, K(o))] = (z, K(0))
                    st.mem[root] = cells
                return
            if X.isk(rest):
                cells = st.mem.get(root)
                if cells:
                    st.mem[root] = {k: c for k, c in cells.items()
                                    if not (self.slot(k)[0] == s and X.isk(self.slot(k)[1]) and self.slot(k)[1].a + c[0] > rest.a
                                            and not (X.isk(n) and self.slot(k)[1].a >= rest.a + n.a))}
                return
            self.bump_rec(st, root, s, ('fl', dst.id))
            return
        if X.isk(off) and X.isk(n) and zero and n.a <= 64:
            for o in range(0, n.a, 8):
                z = min(8, n.a - o)
                if z in (1, 2, 4, 8):
                    self.store(st, X.add(dst, K(o)), z, K(0))
            if root.k == 's' and isinstance(root.a, tuple) and root.a[0] == 'alloca':
                st.ep[(root, 0)] = ('fill', self.serial())
            return
        self.havoc_root(st, root, 'fill')

    # -------------------------------------------------------------- run
    def run(self):
        fn, fi = self.fn, self.fi
        X.ORIGIN.clear()
        X.NOTRUNC = getattr(self.rule, 'notrunc', False)
        st = State()
        st.env, st.mem, st.ep, st.bd, st.ba = {}, {}, {}, {}, {}
        st.auto, st.tr, st.tmp = (), None, None
        self.cur, self.curk = None, 0
        self.allocasz = {}
        self.params = []
        for idx, (ty, v) in enumerate(fn.params):
            pt = fn.ptypes[idx] if idx < len(fn.ptypes) else None
            w = 64 if ty == 'ptr' else int(ty[1:]) if ty[0] == 'i' else 64
            st.env[v] = SYM(('p', v[1:], pt or ''), w, pt, ty == 'ptr')
            self.params.append(st.env[v])
        if self.init:
            self.init(self, st)
        self.rule.start(self, st)
        self.parts = {b: {} for b in fi.order}     # block -> key -> state
        self.pids = {}
        self.heap = []
        self.njoin = {}
        self.inq = set()
        self.dirty = set()
        self.enter(None, fn.entry, st)
        t0 = time.time()
        budget = float(os.environ.get('EDB_BUDGET', '500'))
        self.cut = False
        while self.heap:
            if not self.steps % 64:
                # what was found stands; a broken program may have far more states than a correct one
                t = time.time() - t0
                if self.rule.viol and t > 20 and t > 2 * self.rule.tviol:
                    self.cut = True
                    break
                if t > budget:
                    raise EngineError('%s: no result after %d s' % (fn.name, budget))
                if not self.rule.viol:
                    self.rule.tviol = t
            _, bi, pid, key = heapq.heappop(self.heap)
            b = fi.order[bi]
            if b in self.dirty:
                # the states at a loop header became weaker: everything derived from the stronger ones is
                # derived again, so that old and new states of the loop body do not get joined
                self.dirty.discard(b)
                for d in fi.domby[b]:
                    self.parts[d].clear()
                for k in self.parts[b]:
                    q = (bi, self.pids[(b, k)])
                    if q not in self.inq:
                        self.inq.add(q)
                        heapq.heappush(self.heap, (bi, bi, q[1], k))
            self.inq.discard((bi, pid))
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise EngineError('%s/%s: step limit' % (fn.name, self.rule.name))
            cur = self.parts[b].get(key)
            if cur is None:
                continue            # folded into a coarser partition meanwhile
            self.block(b, cur.copy())
        self.nparts = sum(len(x) for x in self.parts.values())
        return self

    def flagfacts(self, st, fut=None):
        out = []
        for d, b in st.bd.items():
            if d.k == 'and' and X.isk(d.a[1]) and (fut is None or d.a[1].a in fut):
                x = d.a[0]
                if x.k == 'ld':
                    f = X.FIELDNAME(x.a[0])
                    if f and f[1] == 'parameters':
                        out.append((d.a[1].a, b[0] == b[1] == 0))
        out.sort()
        return tuple(out)

    def keyof(self, b, st):
        self.kb = b              # the block whose partitions are asked for
        live = self.fi.live[b]
        cons = []
        fl = self.fi.flagphis
        for v in live:
            if v in fl:
                e = st.env.get(v)
                if e is not None and e.k == 'c':
                    cons.append((v, e.a))
        for p in b.phis:
            if p.res in fl:
                e = st.env.get(p.res)
                if e is not None and e.k == 'c':
                    cons.append((p.res, e.a))
        cons.sort()
        if b in self.coarse:
            return (st.auto,)
        ff = self.flagfacts(st, self.fi.future[b] | self.rule.flags_needed) if self.rule.strict_flags else ()
        if self.rule.valuekeys == 'phis':
            # values merged outside loops stay apart while they are live
            m = self.fi.mergephis
            cons = cons + sorted((v, e.id) for v, e in st.env.items() if v in m and (v in live or any(p.res == v for p in b.phis)))
        elif self.rule.valuekeys:
            phis = {p.res for p in b.phis}
            cons = sorted((v, e.id) for v, e in st.env.items() if v in live or v in phis)
            cons += sorted((r.id, k.id, c[1].id) for r, cs in st.mem.items() for k, c in cs.items())
        return (st.auto, ff, tuple(cons), self.rule_key(st))

    def rule_key(self, st):
        rk = getattr(self.rule, 'partkey', None)
        if rk:
            return rk(self, st)
        pf = getattr(self.rule, 'preds', None)
        return tuple(st.known(e) for e in pf(self, st)) if pf else None

    def enter(self, pred, b, st):
        """flow state into block b: evaluate phis, prune, join"""
        if pred is not None and b.phis:
            vals = []
            for p in b.phis:
                for v, pb in p.a:
                    if pb == pred.name:
                        vals.append((p, self.ev(st, v, p.ty)))
                        break
                else:
                    raise EngineError('phi %s no edge' % p.res)
            for p, e in vals:
                st.env[p.res] = e
        live = self.fi.live[b]
        phis = {p.res for p in b.phis}
        st.env = {v: e for v, e in st.env.items() if v in live or v in phis}
        self.rule.on_enter(self, st, b)
        if st.auto and b in self.fi.loops and pred in self.fi.loops[b]:
            st.auto = self.earlier(b, st)
        key = self.keyof(b, st)
        P = self.parts[b]
        old = P.get(key)
        if old is None:
            if len(P) >= self.MAXPART and b not in self.coarse:
                self.coarse.add(b)
                olds = list(P.values())
                P.clear()
                for o in olds:
                    self._put(b, (o.auto,), o)
                key = (st.auto,)
                old = P.get(key)
            if old is None:
                self._put(b, key, st)
                return
        self._put(b, key, st)

    def earlier(self, b, st):
        """what a rule has noted, with the names of values of the iteration that ends here changed to others"""
        def old(x, out):
            if isinstance(x, tuple):
                for y in x:
                    old(y, out)
            elif isinstance(x, X.E):
                for l in x.leaves:
                    if l.k == 's' and isinstance(l.a, tuple) and l.a[:3] == ('j', self.fn.name, b.name):
                        out.add(l)
        syms = set()
        old(st.auto, syms)
        ren = {}
        for s in syms:
            tag = s.a[4]
            if isinstance(tag, str):
                same = st.env.get(tag) is s
            else:
                same = tag[0] == 'm' and any(c[1] is s for r, cs in st.mem.items() if r.id == tag[1] for k, c in cs.items() if k.id == tag[2])
            if not same:
                ren[s] = SYM(('was',) + s.a[1:], s.w, s.ptee, s.isptr)

        def new(x):
            if isinstance(x, tuple):
                return tuple(new(y) for y in x)
            return X.subst(x, ren) if isinstance(x, X.E) else x
        return new(st.auto) if ren else st.auto

    def _put(self, b, key, st):
        self.kb = b
        P = self.parts[b]
        old = P.get(key)
        pk = (b, key)
        if pk not in self.pids:
            self.pids[pk] = len(self.pids)
        pid = self.pids[pk]
        if old is None:
            P[key] = st
            ch = True
        else:
            pf = getattr(self.rule, 'preds', None) if len(key) >= 4 else None
            kf = getattr(self.rule, 'keep', None)
            if pf is None and kf is None:
                ch = self.join(b, pid, old, st)
            else:
                # predicates with the same truth value in both states hold in their join
                was = dict(old.env), {r: dict(c) for r, c in old.mem.items()}, dict(old.ep), dict(old.bd), dict(old.ba)
                kept = [t if t is old.known(e) else None for e, t in zip(kf(self, old), [st.known(e) for e in kf(self, st)])] if kf else ()
                self.join(b, pid, old, st)
                for e, t in zip(pf(self, old), key[3]) if pf else ():
                    if t is not None and old.known(e) is not t:
                        old.assume(e, t)
                for e, t in zip(kf(self, old), kept) if kf else ():
                    if t is not None and old.known(e) is not t:
                        old.assume(e, t)
                ch = was != (old.env, old.mem, old.ep, old.bd, old.ba)
        if ch:
            bi = self.fi.rpo[b]
            pri = bi
            if old is not None and b in self.fi.last:
                self.dirty.add(b)
                pri = self.fi.last[b] + 0.5
            if (bi, pid) not in self.inq:
                self.inq.add((bi, pid))
                heapq.heappush(self.heap, (pri, bi, pid, key))

    def join(self, b, pid, old, new):
        """old := old join new; True if old changed"""
        changed = False
        # a loop that does not settle: no relation between the joined values is looked for any more
        plain = b in self.fi.last and self.njoin.get((b, pid), 0) > 30
        ren = {}             # phi symbol -> value in new
        moved = set()        # phi symbols that stand for another value in new

        def hullof(s, a, c):
            l1, h1, e1 = old.bounds(a)
            l2, h2, e2 = new.bounds(c)
            lo, hi = min(l1, l2), max(h1, h2)
            ex = ()
            if (0 in e1 or l1 > 0 or h1 < 0) and (0 in e2 or l2 > 0 or h2 < 0) and lo < 0 < hi:
                ex = (0,)
            if lo > -INF or hi < INF or ex:
                hull.append((s, lo, hi, ex))

        hull = []
        created = set()
        made = []
        eqs = [X.sub(d, K(bnd[0])) for d, bnd in old.bd.items() if bnd[0] == bnd[1] and d.k == 'lin' and len(d.a[1]) > 1]
        eqn = [X.sub(d, K(bnd[0])) for d, bnd in new.bd.items() if bnd[0] == bnd[1] and d.k == 'lin' and len(d.a[1]) > 1]
        pairs = {}           # (value in old, value in new) -> joined value
        offs = {}            # the same for all pairs that differ from one in pairs by the same constant
        unimemo = {}

        def register(a, c, s):
            pairs.setdefault((a, c), s)
            unimemo.clear()
            if self.rule.linrel and not s.isptr:
                k = K(X.terms(a)[0])
                offs.setdefault((X.sub(a, k), X.sub(c, k)), X.sub(s, k))

        def unify(a, c):
            """joined value of a and c expressed over values already joined, or None"""
            if a is c and not (moved and moved & a.leaves):
                return a
            r = pairs.get((a, c))
            if r is not None:
                return r
            if offs:
                k = K(X.terms(a)[0])
                r = offs.get((X.sub(a, k), X.sub(c, k)))
                if r is not None:
                    return X.add(r, k)
            if a.k != c.k or a.k in ('c', 's', 'ld') or not pairs:
                return None
            k = (a, c)
            if k in unimemo:
                return unimemo[k]
            unimemo[k] = None
            if a.k == 'lin':
                if len(a.a[1]) != len(c.a[1]) and not (offs and len(a.a[1]) > 1):
                    return None
                ta, tc = dict(a.a[1]), dict(c.a[1])
                for t in list(ta):
                    if tc.get(t) == ta[t] and not (moved and moved & t.leaves):
                        del ta[t], tc[t]
                if offs and len(a.a[1]) > 1:
                    # a term of a may stand for a sum
                    for (x, y), s in offs.items():
                        n = ta.get(x)
                        if n and y.k == 'lin' and len(y.a[1]) > 1:
                            y = X.sub(c, X.scale(y, n))
                            r = unify(X.sub(a, X.scale(x, n)), y) if len(X.terms(y)[1]) < len(tc) else None
                            if r is not None:
                                r = X.add(r, X.scale(s, n))
                                unimemo[k] = r
                                return r
                if len(ta) != len(tc):
                    return None
                base = X.fromterms(a.a[0], {t: n for t, n in a.a[1] if t not in ta})
                out = None
                if a.a[0] == c.a[0]:
                    out, tr = base, dict(tc)
                    for t, n in ta.items():
                        for u, m in tr.items():
                            if m == n:
                                r = unify(t, u)
                                if r is not None:
                                    break
                        else:
                            out = None
                            break
                        del tr[u]
                        out = X.add(out, X.scale(r, n))
                elif len(ta) == 1:
                    (t, n), = ta.items()
                    (u, m), = tc.items()
                    z = c.a[0] - a.a[0]
                    r = unify(t, X.add(u, K(z // n))) if n == m and z % n == 0 else None
                    if r is not None:
                        out = X.add(base, X.scale(r, n))
                if out is None and offs and 1 < len(ta) <= 3:
                    # t stands for u + z in the new state; the shifts must add up
                    out, tr = base, dict(tc)
                    z = c.a[0] - a.a[0]
                    for t, n in ta.items():
                        for (x, y), r in offs.items():
                            if x is t:
                                zy, ty = X.terms(y)
                                u = next(iter(ty)) if len(ty) == 1 else None
                                if u is not None and ty[u] == 1 and tr.get(u) == n:
                                    break
                        else:
                            u = next((u for u, m in tr.items() if m == n), None)
                            r = unify(t, u) if u is not None else None
                            zy = 0
                            if r is None:
                                return None
                        del tr[u]
                        out = X.add(out, X.scale(r, n))
                        z -= n * zy
                    if z != 0:
                        return None
                unimemo[k] = out
                return out
            if len(a.a) != len(c.a):
                return None
            m = {}
            for x, y in zip(a.a, c.a):
                if isinstance(x, X.E) != isinstance(y, X.E):
                    return None
                if not isinstance(x, X.E):
                    if x != y:
                        return None
                elif x is not y or moved and moved & x.leaves:
                    r = unify(x, y)
                    if r is None or m.get(x, r) is not r:
                        return None
                    m[x] = r
            if any(x is y and not (moved and moved & x.leaves) for x, y in zip(a.a, c.a) if isinstance(x, X.E) and x in m):
                return None
            if a.k == 'mul':
                r = K(1)
                for x in a.a:
                    r = X.mul(r, m.get(x, x))
            else:
                r = X.rebuild(a, [m.get(x, x) if isinstance(x, X.E) else x for x in a.a])
            unimemo[k] = r
            return r

        def symof(tag, a, c):
            return SYM(('j', self.fn.name, b.name, pid, tag), max(a.w, c.w) if (a.k != 'c' and c.k != 'c') else 64,
                       (a.ptee if a.ptee == c.ptee else None), a.isptr or c.isptr)

        def names(e, fs):
            out = [e]
            for f in fs:
                t = X.terms(f)[1]
                if len(t) == 2 and X.terms(f)[0] == 0 and t.get(e) in (1, -1):
                    (o, k), = [z for z in t.items() if z[0] is not e]
                    if k == -t[e]:
                        out.append(o)
            return out

        def clean(e):
            for l in e.leaves:
                if l in ren or l.k == 's' and isinstance(l.a, tuple) and l.a[:1] == ('j',) and l.a[2:4] == (b.name, pid):
                    return False
            return True

        def jv(tag, a, c):
            nonlocal changed
            u = unify(a, c) if not plain else None
            if u is not None:
                if u is not a:
                    changed = True
                return u
            s = symof(tag, a, c)
            if self.rule.linrel and pairs and (eqs or eqn) and not plain:
                for x in names(a, eqs):
                    for y in names(c, eqn):
                        if x is not a or y is not c:
                            u = x if x is y else unify(x, y)
                            if u is not None:
                                changed = True
                                return u
            # the same value under two names
            if a.isptr == c.isptr and not plain and clean(a) and clean(c):
                e = X.eq(a, c)
                if new.known(e) is True:
                    return a
                if old.known(e) is True:
                    changed = True
                    return c
            s.nn = a.nn and c.nn
            if a.k == 'urem' and c.k == 'urem' and a.a[1] is c.a[1] and not X.isk(a.a[1]):
                hull.append((X.sub(s, a.a[1]), -INF, -1, ()))
            o = X.ORIGIN.get(s, X.EMPTY) | X.origins(a) | X.origins(c)
            X.ORIGIN[s] = o
            changed = True
            # hull of constants on creation
            if s not in created:
                hullof(s, a, c)
            created.add(s)
            ren[s] = c
            register(a, c, s)
            if s not in (a.leaves | c.leaves) and (not s.isptr or self.rule.linrel):
                made.append((s, a, c))
            return s
        todo = []            # (tag, old value, new value, setter)
        same = []            # (tag, value in both, setter)
        for v, a in old.env.items():
            c = new.env.get(v)
            if c is None:
                raise EngineError('join env %s' % v)
            if a is not c:
                todo.append((v, a, c, ('env', v)))
            elif not (a.k == 'c'):
                same.append((v, a, ('env', v)))
        # epochs
        eps = {}
        for r in set(old.ep) | set(new.ep):
            x, y = old.ep.get(r), new.ep.get(r)
            if x != y:
                t = ('jep', b.name, pid)
                if x != t:
                    eps[r] = t
        # memory
        roots = set(old.mem) | set(new.mem)
        for r in roots:
            ca, cb = old.mem.get(r, {}), new.mem.get(r, {})
            if ca is cb:
                same += [(('m', r.id, k.id), x[1], (r, k, x[0])) for k, x in ca.items() if x[1].k != 'c']
                continue
            out = {}
            for k in set(ca) | set(cb):
                x, y = ca.get(k), cb.get(k)
                if x == y:
                    out[k] = x
                    if x[1].k != 'c':
                        same.append((('m', r.id, k.id), x[1], (r, k, x[0])))
                    continue
                if x is not None and y is not None and x[0] != y[0]:
                    n = max(x[0], y[0])
                    x = (n, self.load(old, X.add(r, k), n))
                    y = (n, self.load(new, X.add(r, k), n))
                n = (x or y)[0]
                xa = x[1] if x else self.load(old, X.add(r, k), n)
                ya = y[1] if y else self.load(new, X.add(r, k), n)
                if xa is ya:
                    out[k] = (n, xa)
                    if xa.k != 'c':
                        same.append((('m', r.id, k.id), xa, (r, k, n)))
                    continue
                out[k] = (n, None)
                todo.append((('m', r.id, k.id), xa, ya, (r, k, n)))
            old.mem[r] = out
        rest = []
        for i, (tag, a, c, where) in enumerate(todo):
            # two pointers into the same object: join the offsets
            r = X.root_of(a)
            if r is not None and r is X.root_of(c) and self.rule.ptrjoin:
                todo[i] = (('o', r.id, tag), X.sub(a, r), X.sub(c, r), ('off', r, where))
        for t in todo:
            tag, a, c, where = t
            if self.rule.undefjoin and (UNDEF in a.leaves or UNDEF in c.leaves):
                # set on one of the paths only
                if a is not UNDEF:
                    changed = True
                self._place(old, where if where[0] != 'off' else where[2], UNDEF)
                continue
            if a.k == 's' and symof(tag, a, c) is a:
                # already the joined value of this cell
                ren[a] = c
                if c is not a:
                    moved.add(a)
                register(a, c, a)
                if a.nn and not c.nn:
                    a.nn = False
                o = X.ORIGIN.get(a, X.EMPTY)
                o2 = X.origins(c) - frozenset((a,))
                if not o2 <= o:
                    X.ORIGIN[a] = o | o2
                self._place(old, where, a)
            else:
                rest.append(t)
        if moved:
            # the same expression, over a symbol that stands for different values
            for tag, a, where in same:
                if moved & a.leaves:
                    rest.append((tag, a, a, where))
                    if where[0] != 'env' and old.mem[where[0]] is new.mem[where[0]]:
                        old.mem[where[0]] = dict(old.mem[where[0]])
        rest.sort(key=lambda t: (X.weight(t[1]) + X.weight(t[2]), str(t[0])))
        for tag, a, c, where in rest:
            self._place(old, where, jv(tag, a, c))
        if eps:
            old.ep.update(eps)
            changed = True
        # facts about a value that now has a joined name
        gen = {a: s for (a, c), s in pairs.items() if s in created and a.k != 'c' and not a.isptr}
        for (a, c), s in offs.items():
            if a.k != 'c' and a.k != 'lin' and a not in gen and s.k == 'lin' and s.leaves <= created:
                gen[a] = s
        ent = getattr(self.rule, 'entails', None)
        if gen and not plain:
            lv = frozenset().union(*[a.leaves for a in gen])
            for d, bnd in list(old.bd.items()):
                if not (lv & d.leaves):
                    continue
                if ent is None and (all(t.k in ('s', 'ld') for t, _ in d.a[1]) if d.k == 'lin' else d.k in ('s', 'ld')):
                    continue
                d1 = X.subst(d, gen)
                if d1 is d or X.isk(d1):
                    continue
                d2 = X.subst(d1, ren)
                lo, hi, exc = new.bounds(d2) if not X.isk(d2) else (d2.a, d2.a, ())
                l2, h2 = min(bnd[0], lo), max(bnd[1], hi)
                if ent is not None and not X.isk(d2):
                    if l2 == -INF < bnd[0] and ent(new, X.scale(X.sub(d2, K(bnd[0])), -1)):
                        l2 = bnd[0]
                    if h2 == INF > bnd[1] and ent(new, X.sub(d2, K(bnd[1]))):
                        h2 = bnd[1]
                ex = (0,) if (0 in bnd[2] or bnd[0] > 0 or bnd[1] < 0) and (0 in exc or lo > 0 or hi < 0) and l2 < 0 < h2 else ()
                if l2 > -INF or h2 < INF or ex:
                    hull.append((d1, l2, h2, ex))
        # facts: keep those of old that also hold in new
        for d, bnd in list(old.bd.items()):
            if any(s in d.leaves for s in created):
                del old.bd[d]
                changed = True
                continue
            d2 = X.subst(d, ren) if ren else d
            lo, hi, exc = new.bounds(d2) if not X.isk(d2) else (d2.a, d2.a, ())
            l2, h2 = min(bnd[0], lo), max(bnd[1], hi)
            if bnd[0] == bnd[1] and ent is not None and self.rule.linrel and (l2, h2) != bnd[:2] and not X.isk(d2) \
                    and ent(new, X.sub(d2, K(bnd[0]))) and ent(new, X.sub(K(bnd[0]), d2)):
                l2 = h2 = bnd[0]
            if l2 < bnd[0]:
                l2 = -INF if not (bnd[0] > 0 and lo >= 1 and False) else l2
            e2 = tuple(x for x in bnd[2] if x in exc or x < lo or x > hi)
            # "nonzero" survives as a fact of its own
            if bnd[0] > 0 and l2 == -INF and lo > 0:
                l2 = 1 if bnd[0] >= 1 and lo >= 1 else -INF
            if h2 > bnd[1]:
                h2 = INF
            if bnd[0] >= 1 and l2 < 1 and (lo >= 1 or 0 in exc or hi < 0) and 0 not in e2:
                e2 = e2 + (0,)
            if (l2, h2, e2) != bnd:
                changed = True
                if l2 == -INF and h2 == INF and not e2:
                    del old.bd[d]
                else:
                    old.bd[d] = (l2, h2, e2)
        for d, t in list(old.ba.items()):
            if any(s in d.leaves for s in created):
                del old.ba[d]
                changed = True
                continue
            d2 = X.subst(d, ren) if ren else d
            if new.known(d2) is not t:
                del old.ba[d]
                changed = True
        for s, l, h, ex in hull:
            if s.k == 's':
                old.bd[s] = (l, h, ex)
            else:
                old._add(s, l if l > -INF else None, h if h < INF else None, 0 if ex else None)
        # linear relations between the values joined here
        if 1 < len(made) <= 24 and not plain:
            for i, (s, a, c) in enumerate(made):
                di = X.sub(a, c)
                for t, x, y in made[:i]:
                    if self.rule.linrel and (eqs or eqn):
                        # relations that follow from an equation of either state
                        for sg in (1, -1):
                            v, w = X.add(a, X.scale(x, sg)), X.add(c, X.scale(y, sg))
                            for e0, fs in ((v, eqs), (w, eqn)):
                                n0 = len(X.terms(e0)[1])
                                vl = e0.leaves
                                for f in fs:
                                    if not (f.leaves & vl):
                                        continue
                                    nf = len(X.terms(f)[1])
                                    for fg in (1, -1):
                                        e = X.add(e0, X.scale(f, fg))
                                        if e.leaves & created or moved & e.leaves or len(X.terms(e)[1]) >= n0 + nf - 1:
                                            continue
                                        o = X.sub(w if e0 is v else v, e)
                                        l, h, _ = (new if e0 is v else old).bounds(o) if not X.isk(o) else (o.a, o.a, ())
                                        if l == h == 0:
                                            r = X.sub(X.add(s, X.scale(t, sg)), e)
                                            if len(X.terms(r)[1]) > 1:
                                                old._add(r, 0, 0, None)
                    dj = X.sub(x, y)
                    if di is dj:
                        r = X.sub(X.sub(s, t), X.sub(a, x))
                    elif X.add(di, dj) is K(0):
                        r = X.sub(X.add(s, t), X.add(a, x))
                    elif self.rule.linrel and X.isk(di) and X.isk(dj) and di.a % dj.a == 0:
                        r = X.sub(X.sub(s, X.scale(t, di.a // dj.a)), X.sub(a, X.scale(x, di.a // dj.a)))
                    elif self.rule.linrel and X.isk(di) and X.isk(dj) and dj.a % di.a == 0:
                        r = X.sub(X.sub(t, X.scale(s, dj.a // di.a)), X.sub(x, X.scale(a, dj.a // di.a)))
                    else:
                        continue
                    if (r.leaves - {s, t}) & (created | moved):
                        continue
                    cc, tt = X.terms(r)
                    if len(tt) > 1:
                        old._add(r, 0, 0, None)
        if old.env.keys() != new.env.keys():
            raise EngineError('env keys')
        if changed:
            self.njoin[(b, pid)] = self.njoin.get((b, pid), 0) + 1
        return changed

    def entailed(self, st, c):
        """truth of c by linear reasoning, for rules that ask for it"""
        ent = getattr(self.rule, 'entails', None)
        if ent is None:
            return None
        if c.k == 'not':
            k = self.entailed(st, c.a[0])
            return None if k is None else not k
        if c.k not in ('lts', 'ltu'):
            return None
        a, b = c.a
        if c.k == 'ltu' and not all(X.isk(x) and x.a >= 0 or x.nn or not X.isk(x) and st.bounds(x)[0] >= 0 for x in (a, b)):
            return None
        d = X.sub(a, b)
        if X.isk(d):
            return None
        if ent(st, X.add(d, K(1))):
            return True
        return False if ent(st, X.scale(d, -1)) else None

    @staticmethod
    def _place(st, where, v):
        if where[0] == 'off':
            v = X.add(where[1], v)
            where = where[2]
        if where[0] == 'env':
            st.env[where[1]] = v
        else:
            r, k, n = where
            st.mem[r][k] = (n, v)

    # -------------------------------------------------------------- block
    def block(self, b, st):
        # fill/copy loops are summarised at their header
        f = self.fi.fill.get(b)
        if f:
            r = self.try_fill(b, f, st)
            if r:
                return
        work = [(st, 0)]
        insts = b.insts
        while work:
            st, i = work.pop()
            while i < len(insts):
                inst = insts[i]
                self.cur, self.curk = inst, 0
                r = self.step(inst, st)
                i += 1
                if r is None:
                    continue
                if r == 'dead':
                    break
                # forked
                for s2 in r[1:]:
                    work.append((s2, i))
                if r:
                    st = r[0]
                else:
                    break
            else:
                pass

    def goto(self, inst, st, target):
        self.enter(inst.blk, self.fn.bmap[target], st)

    def note(self, st, inst, what):
        st.tr = (inst, what, st.tr)

    def step(self, inst, st):
        """None: continue; 'dead'; or list of states to continue from"""
        o = inst.op
        env = st.env
        if o == 'load':
            addr = self.ev(st, inst.a)
            sz = self.m.types.size(inst.ty)
            v = self.load(st, addr, sz, inst.ty == 'ptr')
            if inst.ty == 'ptr' and not v.isptr and v.k in ('s',):
                v.isptr = True
            env[inst.res] = v
            self.rule.on_load(self, st, inst, addr, sz, v)
            return None
        if o == 'store':
            v = self.ev(st, inst.a[0], inst.ty)
            addr = self.ev(st, inst.a[1])
            sz = self.m.types.size(inst.ty)
            old = self.store(st, addr, sz, v)
            self.rule.on_store(self, st, inst, addr, sz, v, old)
            return None
        if o == 'gep':
            env[inst.res] = self.gep(st, inst)
            return None
        if o == 'bin':
            op, a, c = inst.a
            if op[0] == 'f':
                env[inst.res] = X.op(op, self.ev(st, a, inst.ty), self.ev(st, c, inst.ty))
                return None
            w = int(inst.ty[1:])
            ea, ec = self.ev(st, a), self.ev(st, c)
            self.rule.on_bin(self, st, inst, op, ea, ec)
            if self.rule.undefjoin and (UNDEF in ea.leaves or UNDEF in ec.leaves):
                env[inst.res] = UNDEF
                return None
            if w == 1 and op in ('and', 'or', 'xor'):
                ea, ec = self.asbool(ea), self.asbool(ec)
                if op == 'and':
                    env[inst.res] = X.and_(ea, ec)
                elif op == 'or':
                    env[inst.res] = X.or_(ea, ec)
                elif X.isk(ec):
                    env[inst.res] = X.not_(ea) if ec.a & 1 else ea
                else:
                    env[inst.res] = X.op('bool', ea, ec, w=1)
                return None
            if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
                ea, ec = st.val(ea), st.val(ec)
            if op == 'xor' and X.isk(ec) and ec.a == -1 and X.isbool(ea):
                env[inst.res] = X.not_(ea)
                return None
            env[inst.res] = X.binop(op, self.unbool(ea), self.unbool(ec), w)
            return None
        if o == 'icmp':
            pred, a, c = inst.a
            ea, ec = self.ev(st, a, inst.ty), self.ev(st, c, inst.ty)
            w = 64 if inst.ty == 'ptr' else int(inst.ty[1:])
            if self.rule.undefjoin and (UNDEF in ea.leaves or UNDEF in ec.leaves):
                env[inst.res] = UNDEF
                return None
            if w == 1:
                ea, ec = self.asbool(ea), self.asbool(ec)
            env[inst.res] = X.cmp(pred, ea, ec, w)
            return None
        if o == 'cast':
            cop, fty, v = inst.a
            e = self.ev(st, v, fty)
            if cop in ('zext', 'sext'):
                if X.isbool(e) or (fty == 'i1' and not X.isk(e)):
                    e = X.b2i(self.asbool(e))
                    if cop == 'sext':
                        e = X.scale(e, -1)
                elif X.isk(e):
                    w = int(fty[1:])
                    e = K(e.a & ((1 << w) - 1)) if cop == 'zext' else X.tr(e, w) if w > 1 else K(-(e.a & 1))
                elif cop == 'zext' and fty != 'i64' and e.k in ('ld', 's') and (e.k == 's' or e.w == int(fty[1:])):
                    e.nn = True
                elif cop == 'sext':
                    e = self.rule.on_sext(self, st, inst, e)
            elif cop == 'trunc':
                w = int(inst.ty[1:])
                if w == 1:
                    e = self.asbool(e)
                else:
                    e = X.tr(e, w)
            elif cop in ('ptrtoint', 'inttoptr', 'bitcast'):
                pass
            else:
                e = X.op(cop, e, fty)
            env[inst.res] = e
            return None
        if o == 'fcmp':
            pred, a, c = inst.a
            env[inst.res] = X.op('flt', self.ev(st, a, inst.ty), self.ev(st, c, inst.ty), pred, w=1)
            return None
        if o == 'select':
            c = self.asbool(self.ev(st, inst.a[0]))
            a, d = self.ev(st, inst.a[1], inst.ty), self.ev(st, inst.a[2], inst.ty)
            k = st.known(c)
            if k is not None:
                env[inst.res] = a if k else d
                return None
            if X.isbool(a) or X.isbool(d) or inst.ty == 'i1':
                a, d = self.asbool(a), self.asbool(d)
                env[inst.res] = X.or_(X.and_(c, a), X.and_(X.not_(c), d))
                return None
            if a is d:
                env[inst.res] = a
                return None
            s2 = st.copy()
            out = []
            if st.assume(c, True):
                st.env[inst.res] = a
                out.append(st)
            if s2.assume(c, False):
                s2.env[inst.res] = d
                out.append(s2)
            for s in out:
                self.rule.on_assume(self, s, inst)
            return out or 'dead'
        if o in ('cbr', 'switch'):
            self.rule.on_branch(self, st, inst)
        if o == 'br':
            self.goto(inst, st, inst.a[0])
            return 'dead'
        if o == 'cbr':
            c = self.asbool(self.ev(st, inst.a[0]))
            k = st.known(c)
            if k is None:
                k = self.entailed(st, c)
            if k is not None:
                self.goto(inst, st, inst.a[1] if k else inst.a[2])
                return 'dead'
            s2 = st.copy()
            if st.assume(c, True):
                self.note(st, inst, '%s' % X.show(c))
                self.rule.on_assume(self, st, inst)
                self.goto(inst, st, inst.a[1])
            if s2.assume(c, False):
                self.note(s2, inst, '%s' % X.show(X.not_(c)))
                self.rule.on_assume(self, s2, inst)
                self.goto(inst, s2, inst.a[2])
            return 'dead'
        if o == 'switch':
            v = self.ev(st, inst.a[0], inst.ty)
            rest = st.copy()
            for cv, lab in inst.a[2]:
                c = X.eq(v, K(cv))
                s2 = rest.copy()
                if s2.assume(c, True):
                    self.note(s2, inst, X.show(c))
                    self.rule.on_assume(self, s2, inst)
                    self.goto(inst, s2, lab)
                if not rest.assume(c, False):
                    return 'dead'
            self.rule.on_assume(self, rest, inst)
            self.goto(inst, rest, inst.a[1])
            return 'dead'
        if o == 'ret':
            v = self.ev(st, inst.a, inst.ty) if inst.a else None
            self.rets += 1
            self.rule.on_ret(self, st, inst, v)
            return 'dead'
        if o == 'unreachable':
            return 'dead'
        if o == 'alloca':
            s = SYM(('alloca', self.fn.name, inst.res), 64, None, True)
            self.allocasz[s] = self.m.types.size(inst.ty)
            env[inst.res] = s
            return None
        if o == 'call':
            return self.call(inst, st)
        if o == 'extractvalue':
            env[inst.res] = self.fresh(st, 'xv')
            return None
        raise EngineError('op ' + o)

    def asbool(self, e):
        if X.isk(e):
            return K(e.a & 1)
        if X.isbool(e):
            return e
        if e.k == 'b2i':
            return e.a[0]
        return X.ne0(e)

    def unbool(self, e):
        return X.b2i(e) if X.isbool(e) else e

    def gep(self, st, inst):
        base = self.ev(st, inst.a[0])
        ty = inst.ty
        r = base
        cur = ty
        for n, (ity, v) in enumerate(inst.a[1]):
            iv = self.ev(st, v)
            if X.isbool(iv):
                iv = X.b2i(iv)
            if n == 0:
                r = X.add(r, X.scale(iv, self.m.types.size(ty)))
                cur = ty
            elif cur.startswith('['):
                el = cur[1:-1].split(' x ', 1)[1]
                r = X.add(r, X.scale(iv, self.m.types.size(el)))
                cur = el
            else:
                offs, _, _ = self.m.types.layout(cur) if cur.startswith('%') else self.m.types._compute_l(cur)
                if n == 1 and X.isk(self.ev(st, inst.a[1][0][1])):
                    nm = cur[1:].strip('"')
                    nm = nm.split('.', 1)[1] if nm.startswith('struct.') else nm
                    nm = nm.split('.')[0] if nm.split('.')[-1].isdigit() else nm
                    if nm in self.m.fields and not (r.isptr and r.ptee):
                        X.hint(r, nm)
                r = X.add(r, K(offs[iv.a]))
                from .ir import split_top
                cur = (self.m.types.structs[cur] if cur.startswith('%') else split_top(cur[1:-1]))[iv.a]
        return r

    # -------------------------------------------------------------- calls
    def callee_of(self, st, inst):
        """-> (kind, name, E)"""
        c = inst.a[0]
        if c[0] == '@':
            return 'fn', c[1:], None
        e = self.ev(st, c)
        if e.k == 's' and isinstance(e.a, tuple) and e.a[0] == 'glob':
            return 'fn', e.a[1], e
        if e.k == 'ld':
            f = X.FIELDNAME(e.a[0])
            if f:
                if f[0] == 'embedDBFileInterface':
                    return 'file', f[1], e
                return 'slot', f[1], e
        if e.k == 's' and isinstance(e.a, tuple) and e.a[0] == 'p':
            return 'parm', e.a[1], e
        return 'unk', X.show(e), e

    def call(self, inst, st):
        kind, name, ce = self.callee_of(st, inst)
        args = [self.ev(st, v, t) for t, v in inst.a[1] if t != 'metadata']
        ev = Ev(inst, kind, name, args, ce)
        if kind == 'fn':
            if name in PRINTS:
                if inst.res:
                    st.env[inst.res] = self.fresh(st, 'pr', 32)
                return None
            if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove', '__memcpy_chk') or name.startswith('llvm.memmove'):
                self.do_copy(st, inst, args[0], args[1], st.val(args[2]))
                if inst.res:
                    st.env[inst.res] = args[0]
                return None
            if name.startswith('llvm.memset') or name == 'memset':
                self.do_fill(st, inst, args[0], args[1], st.val(args[2]))
                if inst.res:
                    st.env[inst.res] = args[0]
                return None
            if name in ('malloc', 'calloc', 'realloc'):
                ob = SYM(('obj', self.fn.name, inst.id), 64, None, True)
                self.purge(st, ob)
                st.mem.pop(ob, None)
                ev.res = ob
                out = [st]
                if self.rule.fork_malloc:
                    s2 = st.copy()
                    s2.env[inst.res] = K(0)
                    e2 = Ev(inst, kind, name, args, ce)
                    e2.res = K(0)
                    self.note(s2, inst, '%s returns NULL' % name)
                    self.rule.on_call(self, s2, e2)
                    out.append(s2)
                if name == 'calloc':
                    st.ep[(ob, 0)] = ('zero', 0)
                st.env[inst.res] = ob
                self.rule.on_call(self, st, ev)
                return out
            if name.startswith('llvm.'):
                if inst.res:
                    st.env[inst.res] = X.op('fn_' + name, *args)
                return None
        if kind == 'file':
            return self.file_call(inst, st, ev)
        if kind == 'slot' and name in ('compareKey', 'compareData') or (kind == 'parm' and 'compare' in name):
            ev.kind = 'cmp'
            ev.name = 'compareKey' if 'Key' in name or kind == 'parm' else 'compareData'
            s = SYM(('cmp', self.fn.name, inst.id), 32)
            self.purge(st, s)
            if self.rule.fork_cmp:
                out = []
                for v in (-1, 0, 1):
                    s2 = st.copy()
                    s2.env[inst.res] = K(v)
                    e2 = Ev(inst, ev.kind, ev.name, args, ce)
                    e2.res = K(v)
                    self.note(s2, inst, '%s(%s, %s) = %d' % (ev.name, X.show(args[0]), X.show(args[1]), v))
                    self.rule.on_call(self, s2, e2)
                    out.append(s2)
                return out
            ev.res = s
            st.env[inst.res] = s
            self.rule.on_call(self, st, ev)
            return None
        # default effects
        eff = self.effects(st, ev)
        if inst.res and ev.res is None:
            w = 64 if inst.ty in ('ptr', 'double', 'float') else int(inst.ty[1:])
            ev.res = SYM(('ret', self.fn.name, inst.id), w, None, inst.ty == 'ptr')
            self.purge(st, ev.res)
        r = self.rule.on_call(self, st, ev)
        if inst.res:
            st.env[inst.res] = ev.res
        if r == 'dead':
            return 'dead'
        if isinstance(r, list):
            return r
        return None

    def effects(self, st, ev):
        """default memory effects of a call that was not inlined"""
        name = ev.name
        h = getattr(self.rule, 'contract', None)
        if h and h(self, st, ev):
            return
        if ev.kind == 'fn':
            if name in self.rule.SUMMARY and name in self.m.funcs:
                return self.rule.on_effects(self, st, ev)
            if name in PURE_EXT or name in ('free', 'pointsBinarySearch') or name in self.rule.PURE:
                return
            if name in ('splineAdd', 'splineErase', 'splineInit', 'splineClose'):
                r, _ = self.split(ev.args[0])
                if r is not None:
                    self.havoc_root(st, r, name)
                return
            if name == 'splineFind':
                for a in ev.args[3:]:
                    self.store(st, a, 4, self.fresh(st, ('sf', a.id), 32))
                return
            if name == 'splinePrint':
                return
        if ev.kind == 'slot' and name in ('inBitmap',):
            return
        if ev.kind == 'slot' and name == 'updateBitmap':
            # writes the bitmap given as its second argument (const header offset)
            r, off = self.split(ev.args[1])
            if r is not None and self.isbuf(r):
                return
        if ev.kind == 'slot' and name == 'buildBitmapFromRange':
            return
        # anything else may write what its pointer arguments point to
        for a in ev.args:
            if a.k == 'c':
                continue
            r, off = self.split(a)
            if r is not None:
                self.havoc_arg(st, r, name)

    def havoc_arg(self, st, r, name):
        self.havoc_root(st, r, 'call')

    def file_call(self, inst, st, ev):
        op = ev.name
        base = st
        ev.info['file'] = self.which_file(ev)
        self.rule.before_file(self, st, ev)
        if op in ('read', 'write', 'erase', 'open', 'flush', 'close') and self.rule.fork_file and inst.res:
            out = []
            for v in (1, 0):
                s2 = base.copy() if v == 1 else base
                e2 = Ev(inst, 'file', op, ev.args, ev.callee)
                e2.res = K(v)
                e2.info['file'] = self.which_file(ev)
                s2.env[inst.res] = K(v)
                self.note(s2, inst, '%s(%s) %s' % (op, e2.info['file'], 'succeeds' if v else 'fails'))
                self.file_effect(s2, e2)
                self.rule.on_file(self, s2, e2)
                out.append(s2)
            return out
        ev.info['file'] = self.which_file(ev)
        if inst.res:
            ev.res = SYM(('file', self.fn.name, inst.id), 8)
            self.purge(st, ev.res)
            st.env[inst.res] = ev.res
        self.file_effect(st, ev)
        self.rule.on_file(self, st, ev)
        return None

    def file_effect(self, st, ev):
        if ev.name == 'read':
            root, off = self.split(ev.args[0])
            if root is not None:
                if self.isbuf(root):
                    s, rest = self.slot(off)
                    self.havoc_slot(st, root, s, 'read')
                else:
                    self.havoc_root(st, root, 'read')

    FILEARG = {'read': 3, 'write': 3, 'erase': 3, 'open': 0, 'close': 0, 'flush': 0}

    def which_file(self, ev):
        i = self.FILEARG.get(ev.name)
        if i is None or i >= len(ev.args):
            return '?'
        a = ev.args[i]
        if a.k == 'ld':
            f = X.FIELDNAME(a.a[0])
            if f:
                return f[1]
        return '?'

    # -------------------------------------------------------------- fill loops
    def try_fill(self, h, f, st):
        """run the loop body once with the header phis symbolic; if it is a
        byte fill/copy over [0,B) summarise it"""
        import types as _t
        phis = h.phis
        if not phis or len(phis) > 4:
            return False
        body = f['body']
        if not hasattr(st, 'env'):
            return False
        # incoming back-edge states are already folded into the header partition; only
        # summarise from a state whose phis are all entry values
        ind = {}
        for p in phis:
            s = SYM(('ind', self.fn.name, p.res), 64, None, p.ty == 'ptr')
            ind[p.res] = s
        t = st.copy()
        init = {p.res: st.env[p.res] for p in phis}
        for p in phis:
            base = init[p.res]
            if p.ty == 'ptr':
                s2 = SYM(('ind', self.fn.name, p.res), 64)
                t.env[p.res] = X.add(base, s2)
                ind[p.res] = s2
            else:
                ind[p.res].nn = True
                t.env[p.res] = ind[p.res]
        sink = Rule()
        sv = self.rule
        self.rule = sink
        store = None
        exitcond = None
        try:
            b = h
            n = 0
            latch = None
            while n < 12:
                n += 1
                for i in b.insts[:-1]:
                    self.cur, self.curk = i, 0
                    if i is f['store']:
                        store = (self.ev(t, i.a[1]), self.ev(t, i.a[0], i.ty), self.m.types.size(i.ty), i)
                        continue
                    if i.op == 'select':
                        return False
                    r = self.step(i, t)
                    if r is not None:
                        return False
                tm = b.term
                if tm.op == 'br':
                    nb = self.fn.bmap[tm.a[0]]
                elif tm.op == 'cbr':
                    if b is not f['exit'][0]:
                        return False
                    c = self.asbool(self.ev(t, tm.a[0]))
                    exitcond = (c if self.fn.bmap[tm.a[2]] is f['exit'][1] else X.not_(c), b, store is not None)
                    nb = self.fn.bmap[tm.a[1]] if self.fn.bmap[tm.a[1]] in body else self.fn.bmap[tm.a[2]]
                else:
                    return False
                if nb is h:
                    latch = b
                    break
                if nb.phis:
                    return False
                b = nb
            if latch is None or store is None or exitcond is None:
                return False
            steps = {}
            for p in phis:
                for v, pb in p.a:
                    if pb == latch.name:
                        d = X.sub(self.ev(t, v, p.ty), t.env[p.res])
                        if not X.isk(d):
                            return False
                        steps[p.res] = d.a
        except EngineError:
            return False
        finally:
            self.rule = sv
        addr, val, sz, sinst = store
        cond, eblk, after = exitcond
        # continue-condition as  lin(ind) < 0 / != 0
        # find the induction symbol of the address
        cand = [p.res for p in phis if ind[p.res] in addr.leaves]
        if len(cand) != 1:
            return False
        iv = cand[0]
        s = ind[iv]
        c, tt = X.terms(addr)
        coef = tt.get(s)
        if coef not in (1, -1) or sz != 1 or abs(steps[iv]) != 1:
            if not (coef == sz and steps[iv] == 1):
                return False
        p_ptr = [p for p in phis if p.res == iv][0].ty == 'ptr'
        i0 = K(0) if p_ptr else init[iv]
        step = steps[iv] * coef
        # trip count from the exit condition
        trip = self.trip(cond, ind, steps, init, phis, after)
        if trip is None:
            return False
        base0 = X.subst(addr, {s: i0})
        if step < 0:
            start = X.add(base0, K(0))
            start = X.sub(X.add(base0, K(1)), trip)
        else:
            start = base0
        n = X.scale(trip, sz)
        # other phis must not be needed afterwards except linearly
        out = st
        self.cur, self.curk = sinst, 0
        if not (val.leaves & set(ind.values())):
            if not (X.isk(val)) and sz != 1:
                return False
            self.do_fill(out, sinst, start, val, n)
        elif val.k == 'ld' and sz == 1 and s in val.leaves:
            sa = val.a[0]
            c2, t2 = X.terms(sa)
            if t2.get(s) != coef:
                return False
            src = X.subst(sa, {s: i0})
            if step < 0:
                src = X.sub(X.add(src, K(1)), trip)
            self.do_copy(out, sinst, start, src, n)
        else:
            return False
        # leave the loop: values of header phis at exit
        for p in phis:
            fin = X.add(init[p.res], X.scale(trip, steps[p.res]))
            out.env[p.res] = fin
        for b in body:
            for i in b.insts:
                if i.res and i.res in self.fi.live[f['exit'][1]]:
                    return_val = None
        # recompute block values needed at the exit (header only)
        b = h
        for i in h.insts[:-1]:
            if i.op in ('store', 'call', 'load'):
                continue
            self.cur, self.curk = i, 0
            try:
                self.step(i, out)
            except EngineError:
                return False
        for v in self.fi.live[f['exit'][1]]:
            if v not in out.env:
                out.env[v] = self.fresh(out, ('lp', v))
        for p in f['exit'][1].phis:
            for v, pb in p.a:
                if pb == f['exit'][0].name and v.startswith('%') and v not in out.env:
                    out.env[v] = self.fresh(out, ('lp', v))
        self.enter(f['exit'][0], f['exit'][1], out)
        return True

    def trip(self, cond, ind, steps, init, phis, after):
        """number of iterations executed, from the continue-condition"""
        neg = False
        c = cond
        while c.k == 'not':
            neg = not neg
            c = c.a[0]
        syms = {ind[p.res]: p for p in phis}

        def isolate(d):
            """d = k*s + rest"""
            cc, t = X.terms(d)
            hit = [(x, k) for x, k in t.items() if x in syms]
            if len(hit) != 1:
                return None
            x, k = hit[0]
            t = dict(t)
            del t[x]
            return x, k, X.fromterms(cc, t)
        if c.k in ('lts', 'ltu'):
            d = X.sub(c.a[0], c.a[1])
            r = isolate(d)
            if r is None:
                return None
            x, k, rest = r
            p = syms[x]
            stp = steps[p.res]
            i0 = K(0) if p.ty == 'ptr' else init[p.res]
            if p.ty == 'ptr':
                pass
            # continue while k*x + rest < 0   (or >= 0 when neg)
            if not neg and k == 1 and stp == 1:
                b = X.scale(rest, -1)          # x < b
                n = X.sub(b, i0)
            elif neg and k == -1 and stp == 1:
                # -x + rest >= 0  -> x <= rest -> x < rest+1
                n = X.sub(X.add(rest, K(1)), i0)
            elif not neg and k == -1 and stp == -1:
                # -x + rest < 0 -> x > rest
                n = X.sub(i0, rest)
            elif neg and k == 1 and stp == -1:
                # x + rest >= 0 -> x >= -rest
                n = X.sub(X.add(i0, K(1)), X.scale(rest, -1))
            else:
                return None
        elif c.k == 'eq' and neg:
            r = isolate(c.a[0])
            if r is None:
                return None
            x, k, rest = r
            p = syms[x]
            stp = steps[p.res]
            i0 = K(0) if p.ty == 'ptr' else init[p.res]
            if abs(k) != 1 or abs(stp) != 1:
                return None
            b = X.scale(rest, -k)              # x == b stops
            n = X.sub(b, i0) if stp == 1 else X.sub(i0, b)
        else:
            return None
        if after:
            # test after the store: values seen by the test are those of the next iteration
            # only when the stepped value is tested; the isolate above works on the header symbol
            n = X.add(n, K(1))
        return n
