"""Rules about memory obtained from the heap: checked, within bounds, released exactly once, never lost."""
from .. import expr as X
from ..expr import K
from ..base import *
from .records import items, put


def relax(d):
    """an upper bound of d without products of remainders (y % s <= s - 1; s was divided by, so it is not 0) and of quotients with their divisors"""
    for _ in range(8):
        c, t = X.terms(d)
        for x, k in t.items():
            if k < 0 or x.k not in ('mul', 'urem'):
                continue
            fs = list(x.a) if x.k == 'mul' else [x]
            new = None
            for i, f in enumerate(fs):
                rest = fs[:i] + fs[i + 1:]
                if not all(r.nn for r in rest):
                    continue
                if f.k == 'urem':
                    new = X.sub(f.a[1], K(1))
                elif f.k in ('udiv', 'sdiv') and f.a[1] in rest and f.nn:
                    rest.remove(f.a[1])
                    new = f.a[0]
                else:
                    continue
                for r in rest:
                    new = X.mul(new, r)
                break
            if new is not None:
                d = X.add(X.sub(d, X.scale(x, k)), X.scale(new, k))
                break
        else:
            return d
    return d


# objects that members of an initialised structure point to: their sizes from its other members (established by splineInit, see HeapSpline)
OBJECTS = {'spline': {'points': (4, 'keySize', 'size'), 'lastKey': (0, 'keySize', None), 'lower': (4, 'keySize', None),
                      'upper': (4, 'keySize', None), 'firstSplinePoint': (4, 'keySize', None)}}


def objsize(eng, st, struct, base, field):
    ms = {v[0]: (o, v[1]) for o, v in eng.m.fields.get(struct, {}).items()}
    d = OBJECTS.get(struct, {}).get(field)
    if d is None or d[1] not in ms:
        return None
    ld = lambda f: X.zx(eng.load(st, X.add(base, K(ms[f][0])), ms[f][1]), ms[f][1] * 8)
    n = X.add(K(d[0]), ld(d[1]))
    if d[2]:
        if d[2] not in ms:
            return None
        s = ld(d[2])
        s.nn = True
        n = X.mul(n, s)
    return n


class Heap(Rule):
    """typestate of every object allocated or released on the path"""
    name = 'heap'
    linrel = True
    notrunc = True
    fork_malloc = True
    NOINLINE = []
    SPL = True          # the database has been initialised
    ENDS = False        # the function ends the life of its object: what is left in it does not matter

    def start(self, eng, st):
        self.eng = eng
        st.auto = ()
        a, b = self.keysizes(eng, st)
        if a is not None and b.k == 'ld' and self.SPL:
            a.nn = True
            st._add(X.sub(a, b), 0, 0, None)

    @staticmethod
    def keysizes(eng, st):
        """sizes of keys according to the database and to its spline (equal, see HeapInit)"""
        db = [p for p in eng.params if p.ptee == 'embedDBState']
        f, g = ({v[0]: (o, v[1]) for o, v in eng.m.fields.get(s, {}).items()} for s in ('embedDBState', 'spline'))
        if not db or not {'spl', 'keySize'} <= set(f) or 'keySize' not in g:
            return None, None
        sp = eng.load(st, X.add(db[0], K(f['spl'][0])), 8, True)
        return eng.load(st, X.add(db[0], K(f['keySize'][0])), f['keySize'][1]), eng.load(st, X.add(sp, K(g['keySize'][0])), g['keySize'][1])

    @staticmethod
    def entails(st, d):
        return below(st, X.sub(d, K(1)))

    # auto: L ((object, size),...) allocated and not released, D (pointers released)
    def live(self, st):
        return dict(items(st.auto).get('L', ()))

    def dead(self, st):
        return set(items(st.auto).get('D', ()))

    def setauto(self, st, L, D):
        st.auto = put(st.auto, L=tuple(sorted(L.items(), key=lambda x: x[0].id)) or None, D=tuple(sorted(D, key=lambda x: x.id)) or None)

    def fail(self, eng, st, inst, msg, key):
        self.report(eng, inst, msg, st, '%s:%s' % (key, eng.m.srcfunc(inst)))

    # ------------------------------------------------------------ events
    USES = {'buildBitmapFromRange': 2, 'updateBitmap': 1, 'inBitmap': 1}      # callbacks of the user and the argument they use

    def on_call(self, eng, st, ev):
        if ev.kind == 'slot' and ev.name in self.USES and len(ev.args) > self.USES[ev.name]:
            a = ev.args[self.USES[ev.name]]
            if X.isk(a) or a in self.dead(st):
                self.fail(eng, st, ev.inst, '%s is given %s' % (ev.name, 'a null pointer' if X.isk(a) else 'memory that was freed'), 'null')
        if ev.kind != 'fn':
            return
        if ev.name in ('malloc', 'calloc', 'realloc'):
            if ev.name == 'realloc':
                self.release(eng, st, ev.inst, ev.args[0])
            if ev.res is None or X.isk(ev.res):
                return
            self.count('allocations', ev.inst)
            n = {'malloc': lambda: ev.args[0], 'calloc': lambda: X.mul(ev.args[0], ev.args[1]), 'realloc': lambda: ev.args[1]}[ev.name]()
            L, D = self.live(st), self.dead(st)
            if ev.res in L and not self.reachable(eng, st, None, drop=None, want=ev.res):
                self.fail(eng, st, ev.inst, 'memory allocated here before is lost when allocated again', 'lost')
            L[ev.res] = n
            D = {d for d in D if d is not ev.res and ev.res not in d.leaves}
            self.setauto(st, L, D)
        elif ev.name == 'free':
            self.release(eng, st, ev.inst, ev.args[0])
        else:
            for a in ev.args:
                r = X.root_of(a)
                if r is not None and r in self.dead(st):
                    self.fail(eng, st, ev.inst, '%s is given to %s after it was freed' % (X.show(a), ev.name), 'use-after-free')

    def release(self, eng, st, inst, p):
        z = st.known(X.eq(p, K(0)))
        if X.isk(p) and p.a == 0 or z is True:
            return
        self.count('releases', inst)
        L, D = self.live(st), self.dead(st)
        if p in D:
            return self.fail(eng, st, inst, '%s is freed twice' % X.show(p), 'double-free')
        r, off = eng.split(p)
        if r is not p:
            return self.fail(eng, st, inst, '%s, which is freed, is not a pointer to the start of an allocated object' % X.show(p), 'free-what')
        if p.k == 's' and isinstance(p.a, tuple) and p.a[0] in ('alloca', 'glob'):
            return self.fail(eng, st, inst, '%s is freed and is no heap object' % X.show(p), 'free-what')
        L.pop(p, None)
        D.add(p)
        self.setauto(st, L, D)

    def access(self, eng, st, inst, addr, n, what):
        if X.isk(addr):
            return self.fail(eng, st, inst, '%s through a null pointer (offset %s)' % (what, X.show(addr)), 'null')
        r, off = eng.split(addr)
        if r is None:
            return
        if r in self.dead(st):
            return self.fail(eng, st, inst, '%s memory at %s after it was freed' % (what, X.show(r)), 'use-after-free')
        if st.known(X.eq(r, K(0))) is True:
            return self.fail(eng, st, inst, '%s through %s, which is null here' % (what, X.show(r)), 'null')
        size = self.live(st).get(r)
        if size is None and r.k == 'ld':
            f = X.FIELDNAME(r.a[0])
            if f is not None and f[0] in OBJECTS:
                size = objsize(eng, st, f[0], f[2], f[1])
        if size is None:
            return
        self.count('accesses to allocated memory', inst)
        end = X.sub(X.add(off, n), size)
        if not (X.isk(end) and end.a <= 0 or self.le0(st, end)) and not (st.known(X.eq(n, K(0))) is True):
            self.fail(eng, st, inst, '%s %s bytes at offset %s of an object of %s bytes' % (what, X.show(n), X.show(off), X.show(size)), 'bounds')
        elif not self.le0(st, X.scale(off, -1)):
            self.fail(eng, st, inst, '%s offset %s of an object, which may be negative' % (what, X.show(off)), 'bounds')

    def le0(self, st, d):
        d = relax(d)
        if X.isk(d):
            return d.a <= 0
        return below(st, X.sub(d, K(1)))

    def on_load(self, eng, st, inst, addr, size, val):
        self.access(eng, st, inst, addr, K(size), 'reads')

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.access(eng, st, inst, addr, K(size), 'writes')

    def on_copy(self, eng, st, inst, dst, src, n):
        self.access(eng, st, inst, dst, n, 'copies to')
        self.access(eng, st, inst, src, n, 'copies from')

    def on_fill(self, eng, st, inst, dst, byte, n):
        self.access(eng, st, inst, dst, n, 'fills')

    # ------------------------------------------------------------ exits
    @staticmethod
    def local(r):
        return r.k == 's' and isinstance(r.a, tuple) and r.a[0] == 'alloca'

    def reachable(self, eng, st, val, drop=None, want=None):
        """the live objects that can still be reached"""
        L, D = self.live(st), self.dead(st)
        seen = set()
        todo = []

        def see(e):
            r = X.root_of(e)
            for x in ([r] if r is not None else []) + [e]:
                if x in L and x not in seen:
                    seen.add(x)
                    todo.append(x)
        if val is not None:
            see(val)
        for r, cs in st.mem.items():
            if r in L or r in D or want is None and self.local(r):
                continue
            for k, c in cs.items():
                see(c[1])
        if want is not None:
            for e in st.env.values():
                see(e)
        while todo:
            o = todo.pop()
            for k, c in st.mem.get(o, {}).items():
                see(c[1])
        return want in seen if want is not None else seen

    def on_ret(self, eng, st, inst, val):
        L, D = self.live(st), self.dead(st)
        self.count('exits', inst)
        seen = self.reachable(eng, st, val)
        for o in L:
            if o not in seen:
                self.fail(eng, st, inst, 'memory (%s bytes) allocated on this path is neither released nor can it be reached after the return' % X.show(L[o]), 'leak')
        if val is not None and X.root_of(val) in D:
            self.fail(eng, st, inst, 'the result %s points to memory that was freed' % X.show(val), 'dangling')
        if self.ENDS:
            return
        for p in D:
            # the place it was loaded from must not hold it any longer
            for r, cs in st.mem.items():
                if r in D or self.local(r):
                    continue
                for k, c in cs.items():
                    if c[1] is p:
                        self.fail(eng, st, inst, '%s still points to memory that was freed' % X.show(X.add(r, k)), 'dangling')
            if p.k == 'ld':
                a = p.a[0]
                r, off = eng.split(a)
                if r is None or r in D or self.local(r):
                    continue
                if eng.load(st, a, 8, True) is p:
                    self.fail(eng, st, inst, '%s still points to memory that was freed' % X.show(a), 'dangling')


class HeapEnd(Heap):
    ENDS = True


class HeapInit(Heap):
    """embedDBInit without its parts, which are analysed on their own"""
    NOINLINE = ['embedDBInitData', 'embedDBInitIndex', 'embedDBInitVarData']
    PURE = tuple(NOINLINE)
    SPL = False

    def on_ret(self, eng, st, inst, val):
        Heap.on_ret(self, eng, st, inst, val)
        if val is None or st.known(X.eq(val, K(0))) is False or not self.live(st):
            return
        a, b = self.keysizes(eng, st)
        if a is None or b.k == 'ld' and X.FIELDNAME(b.a[0]) is not None and X.FIELDNAME(b.a[0])[0] == 'spline':    # no spline was set up here
            return
        self.count('key sizes', inst)
        if not eqknown(st, a, b):
            self.fail(eng, st, inst, 'the spline is set up for keys of %s bytes, the database has keys of %s bytes' % (X.show(b), X.show(a)), 'object')


class HeapSpline(Heap):
    """splineInit: a spline that is initialised has the objects that the other functions take it to have"""
    ENDS = True

    def on_ret(self, eng, st, inst, val):
        Heap.on_ret(self, eng, st, inst, val)
        sp = [p for p in eng.params if p.ptee == 'spline']
        if not sp or val is None or st.known(X.eq(val, K(0))) is False:
            return
        L = self.live(st)
        ms = {v[0]: o for o, v in eng.m.fields['spline'].items()}
        for f in OBJECTS['spline']:
            if f not in ms:
                continue
            self.count('objects', f)
            p = eng.load(st, X.add(sp[0], K(ms[f])), 8, True)
            n = objsize(eng, st, 'spline', sp[0], f)
            if p not in L:
                self.fail(eng, st, inst, 'spline.%s is no memory allocated here when the spline is initialised' % f, 'object')
            elif not eqknown(st, L[p], n) and not self.le0(st, X.sub(n, L[p])):
                self.fail(eng, st, inst, 'spline.%s has %s bytes when the spline is initialised, not the %s used later' % (f, X.show(L[p]), X.show(n)), 'object')
            elif st.known(X.eq(p, K(0))) is not False:
                self.fail(eng, st, inst, 'spline.%s may be null when the spline is initialised' % f, 'object')


# ---------------------------------------------------------------- what initialising acquired is released by closing
def pathof(eng, p, roots):
    """offsets that lead from a root to the place the pointer p was loaded from, whenever it was"""
    out = []
    while p not in roots:
        if p.k != 'ld':
            return None
        p, off = eng.split(p.a[0])
        if p is None or not X.isk(off):
            return None
        out.append(off.a)
    return tuple(reversed(out))


class Acquire(Heap):
    """collects the places that hold allocated objects and open files after success"""
    NOINLINE = HeapInit.NOINLINE
    PURE = HeapInit.PURE
    SPL = False
    fork_file = True

    def start(self, eng, st):
        Heap.start(self, eng, st)
        self.found = []         # per success exit: ({condition: value}, places, files)

    def fail(self, *a):
        pass

    def on_file(self, eng, st, ev):
        if ev.name == 'open' and ev.res is not None and X.isk(ev.res) and ev.res.a == 1:
            p = pathof(eng, ev.args[0], eng.params)
            if p is not None:
                st.auto = put(st.auto, F=tuple(sorted(set(items(st.auto).get('F', ())) | {p})))

    def on_call(self, eng, st, ev):
        Heap.on_call(self, eng, st, ev)
        if ev.kind == 'slot' and ev.name == 'init' and ev.args:
            p = pathof(eng, ev.args[0], eng.params)
            if p is not None:
                st.auto = put(st.auto, I=tuple(sorted(set(items(st.auto).get('I', ())) | {p})))
        if ev.kind == 'fn' and ev.name in self.PURE:
            st.auto = put(st.auto, C=tuple(sorted(set(items(st.auto).get('C', ())) | {ev.name})))

    def on_ret(self, eng, st, inst, val):
        ptr = val is not None and val.isptr
        if val is not None:
            z = st.known(X.eq(val, K(0)))
            if (z is True or X.isk(val)) if ptr else z is False:
                return
        L = self.live(st)
        places, todo = set(), [(p, ()) for p in ([val] if ptr else eng.params)]
        if ptr and val in L:
            places.add(())
        if not ptr:
            todo += [(r, p) for r, p in ((r, pathof(eng, r, eng.params)) for r in st.mem if r.k == 'ld') if p is not None]
        while todo:
            r, path = todo.pop()
            for k, c in st.mem.get(r, {}).items():
                if c[1] in L and X.isk(k) and path + (k.a,) not in places:
                    places.add(path + (k.a,))
                    todo.append((c[1], path + (k.a,)))
        a = items(st.auto)
        self.found.append((flags(eng, st), frozenset(places), frozenset(a.get('F', ())), a.get('C', ()), frozenset(a.get('I', ()))))


def flags(eng, st):
    db = [p for p in eng.params if p.ptee == 'embedDBState']
    if not db:
        return {}
    s = S(eng)
    out = {}
    for n in (F_INDEX, F_VDATA, F_BIN, F_RLC, F_RESET):
        v = s.flag(st, n)
        if v is not None:
            out[n] = v
    return out


class Release(Heap):
    """closing frees every object and closes every file that initialising left behind (other than what CLOSED names as kept)"""
    ENDS = True
    INITS = ()
    PREFIX = ()

    def start(self, eng, st):
        Heap.start(self, eng, st)
        self.need = []
        for i in self.INITS:
            i = i(eng.m) if callable(i) else i
            self.need += self.acquired(eng, i)

    def acquired(self, eng, f):
        if f not in eng.m.funcs:
            raise Broken('%s not found' % f)
        r = Acquire()
        Engine(eng.m, f, r).run()
        out = []
        for fl, places, files, calls, inputs in r.found:
            files = set(files)
            for c in calls:
                got = [x for x in self.acquired(eng, c)]
                if got:
                    files |= frozenset.intersection(*[x[2] for x in got])
            out.append((fl, frozenset(self.PREFIX + p for p in places), frozenset(files), inputs))
        return list({(tuple(sorted(x[0].items())),) + x[1:]: x for x in out}.values())

    def on_file(self, eng, st, ev):
        if ev.name == 'close':
            p = pathof(eng, ev.args[0], eng.params)
            if p is not None:
                self.count('files closed', ev.inst)
                st.auto = put(st.auto, F=tuple(sorted(set(items(st.auto).get('F', ())) | {p})))

    def on_call(self, eng, st, ev):
        Heap.on_call(self, eng, st, ev)
        if ev.kind == 'slot' and ev.name == 'close' and ev.args:
            p = pathof(eng, ev.args[0], eng.params)
            if p is not None:
                self.count('inputs closed', ev.inst)
                st.auto = put(st.auto, I=tuple(sorted(set(items(st.auto).get('I', ())) | {p})))

    def on_ret(self, eng, st, inst, val):
        Heap.on_ret(self, eng, st, inst, val)
        fl = flags(eng, st)
        freed = {pathof(eng, p, eng.params): p for p in self.dead(st)}
        a = items(st.auto)
        closed = a.get('F', ())
        for f, places, files, inputs in self.need:
            if any(f.get(n, v) != v for n, v in fl.items()):
                continue
            for p in places:
                self.count('objects to release', 'p%s' % (p,))
                if p in freed or self.null(eng, st, p):
                    continue
                self.fail(eng, st, inst, 'memory acquired by %s at %s is not released when %s returns' % (self.names(eng), self.show(eng, p), eng.fn.name), 'kept')
            for p in files:
                self.count('files to close', 'p%s' % (p,))
                if p in closed or self.null(eng, st, p):
                    continue
                self.fail(eng, st, inst, 'the file opened by %s at %s is not closed when %s returns' % (self.names(eng), self.show(eng, p), eng.fn.name), 'open')

            for p in inputs:
                self.count('inputs to close', 'p%s' % (p,))
                if p in a.get('I', ()) or self.null(eng, st, p):
                    continue
                self.fail(eng, st, inst, 'the input at %s, initialised by %s, is not closed when %s returns' % (self.show(eng, p), self.names(eng), eng.fn.name), 'input')

    def names(self, eng):
        return ', '.join(i(eng.m) if callable(i) else i for i in self.INITS)

    def walk(self, eng, p):
        e = eng.params[0]
        for k in p:
            e = LD(X.add(e, K(k)), 8, 0, True)
            yield e

    def null(self, eng, st, p):
        if any(st.known(X.eq(e, K(0))) is True for e in self.walk(eng, p)):
            return True
        for f, (lo, hi, _) in st.bd.items():        # as it was loaded later
            if lo == hi == 0 and f.k == 'ld':
                q = pathof(eng, f, eng.params)
                if q is not None and q == p[:len(q)]:
                    return True
        return False

    def show(self, eng, p):
        return X.show(list(self.walk(eng, p))[-1]) if p else 'the result'


def releases(*inits, prefix=()):
    """closing function given an object directly, or by the address of the pointer to it (prefix)"""
    n = 'Release%d' % len([g for g in globals() if g.startswith('Release')])
    globals()[n] = type(n, (Release,), {'INITS': inits, 'NOINLINE': HeapInit.NOINLINE, 'PURE': HeapInit.PURE, 'PREFIX': prefix, '__module__': __name__})
    return globals()[n]


class Reinit(Acquire):
    """an object that a member still holds when the function is called again is not lost"""
    name = 'reinit'
    null = Release.null
    walk = Release.walk
    show = Release.show

    def on_ret(self, eng, st, inst, val):
        n = len(self.found)
        Acquire.on_ret(self, eng, st, inst, val)
        freed = {pathof(eng, p, eng.params) for p in self.dead(st)}
        for fl, places, files, calls, inputs in self.found[n:]:
            for p in places:
                self.count('members set again', 'p%s' % (p,))
                if p not in freed and not self.null(eng, st, p):
                    self.report(eng, inst, 'memory is allocated for %s although it may still hold an object, which is lost when %s is called again' % (self.show(eng, p), eng.fn.name), st, 'again:%s' % eng.m.srcfunc(inst))


class KeepInput(Heap):
    """closing an operator leaves its input to embedDBFreeOperatorRecursive"""
    name = 'keep-input'
    ENDS = True

    def fail(self, *a):
        pass

    def on_ret(self, eng, st, inst, val):
        f = {v[0]: o for o, v in eng.m.fields.get('embedDBOperator', {}).items()}
        if 'input' not in f:
            raise Broken('embedDBOperator.input not found')
        a = X.add(eng.params[0], K(f['input']))
        e = LD(a, 8, 0, True)
        self.count('operators closed', inst)
        now = eng.load(st, a, 8, True)
        if st.known(X.eq(now, K(0))) is True and st.known(X.eq(e, K(0))) is not True and pathof(eng, now, eng.params) is None and e not in self.dead(st):
            self.report(eng, inst, 'the input is forgotten, so that freeing the operators does not reach it', st, 'input:%s' % eng.m.srcfunc(inst))
