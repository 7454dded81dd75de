"""Divisions."""
from .. import expr as X
from ..expr import K
from ..base import *
from .reads import V
from .records import saturate
from .memory import Heap
from .config import Config, PartConfig, PARTS

DIV = ('udiv', 'sdiv', 'urem', 'srem')
ALWAYS = ('pageSize', 'numDataPages', 'eraseSizeInPages', 'recordSize', 'maxRecordsPerPage')
IFVAR = ('numVarPages',)
IFINDEX = ('numIndexPages', 'maxIdxRecordsPerPage', 'bitmapSize')


def member(e):
    while e.k in ('zx', 'sx', 'tr') and isinstance(e.a[0], X.E):
        e = e.a[0]
    if e.k == 'ld':
        f = X.FIELDNAME(e.a[0])
        return f and tuple(f[:2])
    return None


class Division(Rule):
    """no divisor can be zero: each is a member that initialising makes positive in the configuration at hand, or was tested"""
    name = 'division'
    NOINLINE = list(Heap.NOINLINE)
    PURE = getattr(Heap, 'PURE', ())

    def start(self, eng, st):
        st.auto = ()
        # a stream exists only where there is variable data
        self.stream = any(p.ptee == 'embedDBVarDataStream' for p in eng.params)
        self.db = next((V(eng, p, 'embedDBState') for p in eng.params if p.ptee == 'embedDBState'), None)

    def flag(self, st, bit):
        if self.db is None:
            return None
        return {True: False, False: True, None: None}[st.known(X.eq(X.binop('and', self.db.entry('parameters'), K(bit), 32), K(0)))]

    def file(self, st, name):
        return self.db is not None and st.known(X.eq(self.db.entry(name), K(0))) is False

    def member(self, st, s, n):
        if s == 'embedDBState':
            return n in ALWAYS or n in IFVAR and (self.stream or self.flag(st, F_VDATA) is True or self.file(st, 'varFile')) \
                or n in IFINDEX and (self.flag(st, F_INDEX) is True or self.file(st, 'indexFile'))
        return s in ('spline', 'spline_s') and n == 'size'

    def nonzero(self, eng, st, e):
        if X.isk(e):
            return e.a != 0
        if e.k == 'mul':
            return all(self.nonzero(eng, st, x) for x in e.a)
        if st.known(X.eq(e, K(0))) is False or saturate(st, X.ltu(K(0), e)) is True:
            return True
        if e.k in ('zx', 'sx', 'tr') and isinstance(e.a[0], X.E):
            return self.nonzero(eng, st, e.a[0])
        f = member(e)
        return f is not None and self.member(st, *f)

    def on_bin(self, eng, st, inst, op, a, b):
        if op in DIV:
            self.count('divisions', inst)
            if not self.nonzero(eng, st, b):
                self.report(eng, inst, 'the divisor %s may be zero (entry %s)' % (X.show(b), eng.fn.name), st, 'zero')

    def on_store(self, eng, st, inst, addr, size, val, old):
        if val.k == 'blob':
            return
        f = X.FIELDNAME(addr)
        if f and f[0] == 'embedDBState' and f[1] in ALWAYS + IFVAR + IFINDEX or f and f[0] in ('spline', 'spline_s') and f[1] == 'size':
            self.count('sizes set', inst)
            if not self.nonzero(eng, st, val):
                self.report(eng, inst, '%s, by which is divided, may become zero' % f[1], st, 'set')


class Positive:
    """what is found out about divisors while they are being set"""

    def nonzero(self, eng, st, e):
        if X.isk(e):
            return e.a != 0
        if st.known(X.eq(e, K(0))) is False or below(st, X.sub(K(0), e)):
            return True
        if e.k in ('udiv', 'sdiv'):
            return below(st, X.sub(X.sub(e.a[1], e.a[0]), K(1))) and self.nonzero(eng, st, e.a[1])
        if e.k in ('zx', 'sx', 'tr') and isinstance(e.a[0], X.E) and self.nonzero(eng, st, e.a[0]):
            return True
        f = member(e)
        return f is not None and self.member(st, *f) or any(below(st, X.sub(X.sub(m, e), K(1))) for m in self.positive())

    def positive(self):
        return ()

    def member(self, st, s, n):
        return False

    def on_bin(self, eng, st, inst, op, a, b):
        if op in DIV:
            self.count('divisions', inst)
            if not self.nonzero(eng, st, b):
                self.report(eng, inst, 'the divisor %s may be zero (entry %s)' % (X.show(b), eng.fn.name), st, 'zero')


class DivisionInit(Positive, Config):
    """initialising refuses every configuration in which a number that is divided by is zero"""
    name = 'division-init'
    PARTNEEDS = {'embedDBInitIndex': ('bitmapSize',), 'embedDBInitVarData': ('numVarPages',)}

    def on_call(self, eng, st, ev):
        super().on_call(eng, st, ev)
        if ev.kind == 'fn' and ev.name in PARTS:
            self.count('parts', ev.inst)
            self.need(eng, st, ev.inst, ('pageSize', 'numDataPages', 'eraseSizeInPages') + self.PARTNEEDS.get(ev.name, ()), 'when %s is called' % ev.name)
        elif ev.kind == 'fn' and ev.name == 'splineInit' and not self.nonzero(eng, st, ev.args[1]):
            self.report(eng, ev.inst, 'the spline may be given size zero', st, 'spline')

    def need(self, eng, st, inst, names, when):
        for n in names:
            v = self.s.now(st, n)
            if not self.nonzero(eng, st, v) and not self.nonzero(eng, st, self.s.entry(n)):
                self.report(eng, inst, '%s, by which is divided, may be zero %s' % (n, when), st, 'need:' + n)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        names = ALWAYS
        if self.s.flag(st, F_VDATA) is not False:
            names += IFVAR
        if self.s.flag(st, F_INDEX) is not False:
            names += ('bitmapSize',)
        self.need(eng, st, inst, names, 'after initialising')


class DivisionPart(Positive, PartConfig):
    """parts of initialising divide only by numbers that were checked"""
    name = 'division-part'

    def member(self, st, s, n):
        return s == 'embedDBState' and (n in ('pageSize', 'numDataPages', 'eraseSizeInPages') or n in DivisionInit.PARTNEEDS.get(self.eng.fn.name, ()))

    def positive(self):
        return (X.scale(self.s.entry('eraseSizeInPages'), 2), self.s.entry('eraseSizeInPages'))

    def begin(self, eng, st):
        super().begin(eng, st)
        self.eng = eng

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        if eng.fn.name == 'embedDBInitIndex':
            for n in ('numIndexPages', 'maxIdxRecordsPerPage'):
                v = self.s.now(st, n)
                if not self.nonzero(eng, st, v):
                    self.report(eng, inst, '%s, by which is divided, may be zero after initialising' % n, st, 'need:' + n)


class DivisionSpline(Positive, Rule):
    """a spline never gets size zero"""
    name = 'division-spline'

    def start(self, eng, st):
        st.auto = ()

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        v = V.of(eng, 'spline').now(st, 'size')
        # the size asked for is looked at where splineInit is called
        if not st.eq(v, eng.params[1].e if hasattr(eng.params[1], 'e') else eng.params[1]) and not self.nonzero(eng, st, v):
            self.report(eng, inst, 'the spline may get size %s' % X.show(v), st, 'spline')
