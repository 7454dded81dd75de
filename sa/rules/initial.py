"""Rules about values that were never set: members that later calls rely on, and local variables."""
from .. import expr as X
from ..expr import K, LD, UNDEF
from ..base import *
from ..engine import Engine
from .memory import HeapInit, flags
from .records import items, put


def where(eng, addr, any_epoch=True):
    """(parameter, offsets) of the place addr: a member of what a parameter points to, or of what such a member points to"""
    out = []
    p = addr
    while True:
        r, off = eng.split(p)
        if r is None or not X.isk(off):
            return None
        out.append(off.a)
        if r in eng.params:
            return r, tuple(reversed(out))
        if r.k != 'ld':
            return None
        p = r.a[0]


class Uses(Rule):
    """collects the members a function reads without having set them"""
    name = 'uses'
    fork_file = False
    flags_needed = frozenset((F_INDEX, F_VDATA, F_BIN, F_RLC))
    STRUCT = None
    NEEDS = ()              # features without which the function is not called

    def start(self, eng, st):
        st.auto = ()
        self.found = {}

    def see(self, eng, st, inst, addr):
        w = where(eng, addr)
        if w is None or w[0].ptee != self.STRUCT:
            return
        fl = flags(eng, st)
        if self.STRUCT == 'embedDBState':
            s = S(eng)
            for f, n in (('indexFile', F_INDEX), ('varFile', F_VDATA)):     # which are null without the feature
                if st.known(X.eq(s.now(st, f), K(0))) is False:
                    if fl.get(n) is False:
                        return
                    fl[n] = True
            for n in (F_INDEX, F_VDATA):
                if n in self.NEEDS:
                    if fl.get(n) is False:
                        return
                    fl[n] = True
        self.found.setdefault((w[1], tuple(sorted(fl.items()))), eng.m.locstr(inst))

    def on_load(self, eng, st, inst, addr, size, val):
        if val.k == 'ld' and val.a[0] is addr or val.k == 's' and any(o.k == 'ld' and o.a[0] is addr for o in X.origins(val)):
            self.see(eng, st, inst, addr)

    def on_call(self, eng, st, ev):
        if ev.kind == 'cmp':                    # a member handed to a comparison by its address
            for a in ev.args:
                v = eng.load(st, a, 4)
                if eng.split(a)[0] is not None and v.k == 'ld' and v.a[0] is a:
                    self.see(eng, st, ev.inst, a)

    def on_copy(self, eng, st, inst, dst, src, n):
        if X.isk(n) and n.a in (1, 2, 4, 8):
            v = eng.load(st, src, n.a)
            if v.k == 'ld' and v.a[0] is src:
                self.see(eng, st, inst, src)


class Sets(Rule):
    """what is set on each path to success: typestate is the set of (object, offset) written"""
    name = 'sets'
    fork_malloc = True
    fork_file = False
    NOINLINE = HeapInit.NOINLINE
    PURE = HeapInit.PURE
    flags_needed = Uses.flags_needed
    WANT = None             # offsets of interest in the structure itself
    TRUTH = False           # nonzero means success
    HOW = 'result'          # or the name of the structure initialised

    def start(self, eng, st):
        st.auto = ()
        self.exits = []

    @staticmethod
    def add(st, w, **kw):
        a = items(st.auto)
        st.auto = put(st.auto, **{w: tuple(sorted(set(a.get(w, ())) | {kw['x']}))})

    def on_store(self, eng, st, inst, addr, size, val, old):
        r, off = eng.split(addr)
        if self.WANT is not None and (r not in eng.params or not X.isk(off) or off.a not in self.WANT):
            return
        if r is None or not X.isk(off) or r.k == 's' and isinstance(r.a, tuple) and r.a[0] == 'alloca':
            return
        if UNDEF in val.leaves:
            return
        self.add(st, 'S', x=(r.id, off.a))
        w = where(eng, addr) if self.WANT is None and r.k == 'ld' else None
        if w:                                   # the same member may be reached by another name after a call
            self.add(st, 'W', x=(w[0].id,) + w[1])

    def on_copy(self, eng, st, inst, dst, src, n):
        r, off = eng.split(dst)
        if self.WANT is not None:
            return self.wanted(eng, st, r, off, n)
        if r is not None and X.isk(off) and not (X.isk(n) and n.a in (1, 2, 4, 8)):
            self.add(st, 'S', x=(r.id, off.a))
            if X.isk(n) and n.a <= 256:
                for o in range(n.a):
                    self.add(st, 'S', x=(r.id, off.a + o))

    def wanted(self, eng, st, r, off, n):
        if r in eng.params and X.isk(off) and X.isk(n):
            for o in self.WANT:
                if off.a <= o < off.a + n.a:
                    self.add(st, 'S', x=(r.id, o))

    def on_fill(self, eng, st, inst, dst, byte, n):
        r, off = eng.split(dst)
        if self.WANT is not None:
            return self.wanted(eng, st, r, off, n)
        if r is not None and X.isk(off):
            self.add(st, 'Z', x=(r.id, off.a, n.a if X.isk(n) else 1 << 30))

    def on_call(self, eng, st, ev):
        if ev.kind == 'fn' and ev.name in self.PURE:
            self.add(st, 'C', x=ev.name)
        if ev.kind == 'fn' and ev.name == 'calloc' and ev.res is not None and not X.isk(ev.res):
            self.add(st, 'Z', x=(ev.res.id, 0, 1 << 30))

    def base(self, eng, st, val):
        if self.HOW == 'result':
            return val
        if isinstance(self.HOW, int):
            return eng.load(st, eng.params[self.HOW], 8, True) if self.HOW < len(eng.params) else None
        for p in eng.params:
            if p.ptee == self.HOW:
                return p
        return None

    DONE = None             # a function without a result has succeeded when this member is an object it allocated

    def success(self, eng, st, val):
        if val is None and self.DONE:
            off = [o for o, f in eng.m.fields.get(self.HOW, {}).items() if f[0] == self.DONE]
            if not off:
                raise Broken('member %s of %s not found' % (self.DONE, self.HOW))
            v = eng.load(st, X.add(self.base(eng, st, val), K(off[0])), 8, True)
            return not X.isk(v) and v.k == 's' and st.known(X.eq(v, K(0))) is not True
        if val is None:
            return True
        z = st.known(X.eq(val, K(0)))
        if self.TRUTH:
            return z is not True
        return not (z is True or X.isk(val)) if val.isptr else z is not False

    def on_ret(self, eng, st, inst, val):
        if not self.success(eng, st, val):
            return
        b = self.base(eng, st, val)
        if b is None or X.isk(b):
            return
        a = items(st.auto)
        S, Z, W = set(a.get('S', ())), a.get('Z', ()), a.get('W', ())

        def isset(path):
            """True/False; None: no member of an object set up here"""
            e = b
            if (b.id,) + tuple(path) in W:
                return True
            for i, o in enumerate(path):
                r, off = eng.split(X.add(e, K(o)))
                if r is None or not X.isk(off):
                    return None
                ok = (r.id, off.a) in S or any(z[0] == r.id and z[1] <= off.a < z[1] + z[2] for z in Z)
                fresh = r.k == 's' and isinstance(r.a, tuple) and r.a[0] in ('v', 'obj')
                if i == len(path) - 1 or not ok and fresh:
                    return ok
                e = eng.load(st, X.add(e, K(o)), 8, True)
                if X.isk(e) or st.known(X.eq(e, K(0))) is True:
                    return None
                if e.k == 'ld' and not ok:
                    continue                    # an object that was there before
                if not (e.k == 's' and isinstance(e.a, tuple) and e.a[0] in ('v', 'obj')):
                    return None                 # an object of the caller
        self.exits.append((flags(eng, st), isset, a.get('C', ()), inst, st.copy()))


class Initialised(Sets):
    """every member that a later call may read has been set at every success exit"""
    name = 'initialised'
    STRUCT = 'embedDBState'
    USERS = ()
    OWN = None              # members of the structure the caller sets
    LATER = {}              # members set by a call that comes before those that read them
    BEFORE = ()             # (function, how): what was called on the object before

    def start(self, eng, st):
        Sets.start(self, eng, st)

    def sets(self, m, f, how, want=None):
        f = f(m) if callable(f) else f
        if f not in m.funcs:
            raise Broken('%s not found' % f)
        r = type('S', (Sets,), {'HOW': how, 'WANT': want})()
        Engine(m, f, r).run()
        return r.exits

    def finish(self, eng):
        m = eng.m
        if self.STRUCT not in m.fields:
            raise Broken('struct %s not found' % self.STRUCT)
        need = {}
        for u in self.USERS:
            u = u(m) if callable(u) else u
            if u not in m.funcs:
                raise Broken('%s not found' % u)
            r = type('U', (Uses,), {'STRUCT': self.STRUCT, 'NEEDS': NEEDS.get(u, ())})()
            Engine(m, u, r).run()
            for (path, fl), loc in r.found.items():
                need.setdefault((path, fl), (u, loc))
        before = [self.sets(m, f, how) for f, how in self.BEFORE]
        calls = {}
        want = frozenset(p[0] for p, _ in need if len(p) == 1) - frozenset(p[0] for p, fl in need if all(x[1](p) for x in self.exits))

        def compatible(f, g):
            return all(g.get(n, v) == v for n, v in f.items())
        for (path, fl), (u, loc) in sorted(need.items()):
            f = m.field_at(self.STRUCT, path[0])
            if f is None or f[0] in self.OWN or f[0] in self.LATER:
                continue
            fl = dict(fl)
            if any(b and all(x[1](path) in (True, None) for x in b) for b in before):
                self.count('members relied on', 'p%s' % (path,))
                continue
            for xf, isset, cs, inst, st in self.exits:
                if not compatible(fl, xf) or xf.get(GIVEN.get(f[0]), False) is True:
                    continue
                ok = isset(path)
                if ok is None:
                    continue
                self.count('members relied on', 'p%s' % (path,))
                for c in cs if not ok else ():
                    if c not in calls:
                        calls[c] = self.sets(m, c, self.HOW, want)
                    got = [x for x in calls[c] if compatible(fl, x[0]) and compatible(xf, x[0])]
                    if got and all(x[1](path) for x in got):
                        ok = True
                if not ok:
                    self.report(eng, inst, '%s%s, which %s reads (%s), is not set when %s returns successfully' % (
                        '%s.%s' % (self.STRUCT, f[0]), ''.join('->+%d' % o for o in path[1:]), u, loc, eng.fn.name), st, 'unset:%s:%s' % (f[0], path[1:]))


def initialised(struct, how, own, users, before=(), later=(), truth=False, done=None):
    n = 'Initialised%d' % len([g for g in globals() if g.startswith('Initialised')])
    globals()[n] = type(n, (Initialised,), {'STRUCT': struct, 'HOW': how, 'OWN': frozenset(own), 'USERS': tuple(users), 'BEFORE': tuple(before),
                                           'LATER': frozenset(later), 'TRUTH': truth, 'DONE': done, '__module__': __name__})
    return globals()[n]


# members the caller sets before embedDBInit (docs/usageInfo.md), and the values a search starts from
CONFIG = ('keySize dataSize pageSize bufferSizeInBlocks buffer numDataPages numIndexPages numVarPages eraseSizeInPages bitmapSize parameters '
          'fileInterface dataFile inBitmap updateBitmap buildBitmapFromRange compareKey compareData numSplinePoints').split()
# what has to be configured for the function to be called at all
NEEDS = {'embedDBVarDataStreamRead': (F_VDATA,), 'embedDBGetVar': (F_VDATA,), 'embedDBNextVar': (F_VDATA,), 'embedDBPutVar': (F_VDATA,)}
# set by the caller only if the feature is used
GIVEN = {'indexFile': F_INDEX, 'varFile': F_VDATA}
BOUNDS = ('minKey', 'maxKey', 'minData', 'maxData')
