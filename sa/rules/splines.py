"""Removing points from the spline."""
from .. import expr as X
from ..expr import K, LD
from ..base import *
from .reads import V
from .records import saturate, below


def urems(e, size, out, depth=0):
    if isinstance(e, X.E) and depth < 8:
        if e.k == 'urem' and e.a[1] is size:
            out.add(e)
        for a in e.a:
            if isinstance(a, X.E):
                urems(a, size, out, depth + 1)
            elif isinstance(a, tuple):
                for b in a:
                    for c in (b if isinstance(b, tuple) else (b,)):
                        urems(c, size, out, depth + 1)
    return out


class Clean(Rule):
    """points are removed only when the point behind them is not on a page after the oldest one, and at least two are left"""
    name = 'spline-clean'
    linrel = True
    valuekeys = 'phis'
    notrunc = True
    NOINLINE = ANCHORS

    def start(self, eng, st):
        self.eng = eng
        self.db = V.of(eng, 'embedDBState')
        self.spl = V(eng, self.db.entry('spl'), 'spline')
        self.min = eng.params[1] if len(eng.params) > 1 else self.db.entry('minDataPageId')
        eng.ghost(st, 'ok', K(0))
        st.auto = ()

    def index(self, st, src):
        """number of the point whose page number is at src"""
        s = self.spl
        size, ks = s.now(st, 'size'), (s.now(st, 'keySize'), self.db.now(st, 'keySize'))
        d = X.sub(src, s.now(st, 'points'))
        for u in urems(d, size, set()):
            for a in ks:
                for b in ks:
                    if st.eq(d, X.add(X.mul(u, X.add(a, K(4))), b)):
                        return X.sub(u.a[0], s.now(st, 'pointsStartIndex'))
        return None

    def on_enter(self, eng, st, b):
        if b in eng.fi.loops:
            st.auto = ()

    def partkey(self, eng, st):
        return st.known(X.eq(eng.ghost(st, 'ok'), K(0)))

    def keep(self, eng, st):
        p = X.ltu(self.spl.entry('count'), X.add(eng.ghost(st, 'ok'), K(2)))
        saturate(st, p)
        return [p]

    def on_copy(self, eng, st, inst, dst, src, n):
        if X.isk(n) and n.a == 4:
            self.point(eng, st, inst, src, dst, None)

    def on_load(self, eng, st, inst, addr, size, val):
        if size == 4:
            self.point(eng, st, inst, addr, None, val)

    def point(self, eng, st, inst, src, dst, val):
        j = self.index(st, src)
        if j is not None:
            self.count('points read', inst)
            c = self.spl.entry('count')
            if saturate(st, X.ltu(j, c)) is not True and not below(st, X.add(X.sub(j, c), K(1))):
                self.report(eng, inst, 'point %s is read of %s' % (X.show(j), X.show(c)), st, 'past')
            st.auto = (('p', (dst, val, j)),)

    def on_assume(self, eng, st, inst):
        a = dict(st.auto)
        if 'p' not in a:
            return
        dst, v, j = a['p']
        if v is None:
            v = eng.load(st, dst, 4)
        old = st.known(X.ltu(v, self.min))
        late = st.known(X.ltu(self.min, v))
        if old is None and late is None:
            return
        old = old is True or late is False
        st.auto = ()
        if old and st.eq(j, X.add(eng.ghost(st, 'ok'), K(1))):
            self.count('points found superfluous', inst)
            eng.ghost(st, 'ok', j)

    def on_call(self, eng, st, ev):
        if ev.kind != 'fn' or ev.name != 'splineErase':
            return
        self.count('removals', ev.inst)
        n, ok, c = ev.args[1], eng.ghost(st, 'ok'), self.spl.entry('count')
        if not (st.eq(n, ok) or saturate(st, X.ltu(ok, n)) is False or below(st, X.sub(X.sub(n, ok), K(1)))):
            self.report(eng, ev.inst, '%s points of the spline are removed, %s of them are known to be superfluous' % (X.show(n), X.show(ok)), st, 'needed')
        if not (saturate(st, X.ltu(c, X.add(n, K(2)))) is False or (st.eq(n, X.sub(c, K(2))) and saturate(st, X.ltu(c, K(2))) is False) or below(st, X.add(X.sub(n, c), K(1)))):
            self.report(eng, ev.inst, '%s points of the spline with %s are removed, which may leave less than two' % (X.show(n), X.show(c)), st, 'two')


class Erase(Rule):
    """splineErase drops the oldest points and keeps the others, or changes nothing"""
    name = 'spline-erase'
    valuekeys = True
    notrunc = True
    NOINLINE = []

    def start(self, eng, st):
        self.eng = eng
        self.s = V.of(eng, 'spline')
        self.n = eng.params[1]
        st.auto = ()

    def on_ret(self, eng, st, inst, val):
        s, n = self.s, self.n
        self.count('exits', inst)
        c0, c1 = s.entry('count'), s.now(st, 'count')
        b0, b1 = s.entry('pointsStartIndex'), s.now(st, 'pointsStartIndex')
        same = st.eq(c0, c1) and st.eq(b0, b1)
        z = st.known(X.eq(val, K(0)))
        for f in ('size', 'points', 'keySize', 'maxError', 'lastKey', 'lower', 'upper', 'tempLastPoint', 'firstSplinePoint', 'lastLoc'):
            if not st.eq(s.entry(f), s.now(st, f)):
                self.report(eng, inst, 'removing points changes %s' % f, st, 'other')
        if z is not True:
            if not same:
                self.report(eng, inst, 'points are removed although failure is reported', st, 'fail')
            return
        if st.known(X.eq(n, K(0))) is True and same:
            return
        if not st.eq(X.sub(c0, n), c1):
            self.report(eng, inst, 'removing %s of %s points leaves %s' % (X.show(n), X.show(c0), X.show(c1)), st, 'count')
        if not st.eq(b1, X.binop('urem', X.add(b0, n), s.entry('size'), 32)):
            self.report(eng, inst, 'removing %s points moves the first point to %s' % (X.show(n), X.show(b1)), st, 'start')
        if st.known(X.ltu(c0, n)) is not False and saturate(st, X.ltu(c0, n)) is not False:
            self.report(eng, inst, 'more points may be removed than there are', st, 'more')
        if st.known(X.eq(X.sub(X.sub(c0, n), K(1)), K(0))) is not False:
            self.report(eng, inst, 'one point may be left, from which no position can be estimated', st, 'one')


class Caller(Rule):
    """the spline is cleaned up to the oldest page there is"""
    name = 'spline-upto'
    valuekeys = True
    NOINLINE = tuple(ANCHORS) + ('cleanSpline',)
    PURE = ['cleanSpline']

    def start(self, eng, st):
        self.db = V.of(eng, 'embedDBState')
        st.auto = ()

    def on_call(self, eng, st, ev):
        if ev.kind != 'fn' or ev.name != 'cleanSpline':
            return
        self.count('clean-ups', ev.inst)
        if len(ev.args) > 1:
            st.auto = (('upto', ev.args[1]),)

    def on_ret(self, eng, st, inst, val):
        a, m = dict(st.auto).get('upto'), self.db.now(st, 'minDataPageId')
        if a is not None and not st.eq(a, m) and not below(st, X.sub(a, m)):
            self.report(eng, inst, 'points up to page %s are removed when the oldest page is %s' % (X.show(a), X.show(m)), st, 'upto')
