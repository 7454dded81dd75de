"""Rules about configurations: what embedDBInit refuses, and the layout it computes."""
from .. import expr as X
from ..expr import K
from ..base import *
from .records import items, put

PARTS = {'embedDBInitData': None, 'embedDBInitIndex': F_INDEX, 'embedDBInitVarData': F_VDATA}
MIN_OFFSET = 14


class Config(DBRule):
    """at success, the configuration is one that works and the layout computed fits it"""
    name = 'config'
    NOINLINE = ANCHORS + list(PARTS)
    PURE = tuple(PARTS)
    notrunc = True
    flags_needed = frozenset((F_INDEX, F_VDATA, F_BMAP, F_MAXMIN, F_BIN, F_RLC))

    def preset(self, eng, st):
        s = self.s
        for f in ('numIndexPages', 'numVarPages', 'numDataPages', 'eraseSizeInPages', 'bitmapSize', 'pageSize', 'numSplinePoints', 'bufferSizeInBlocks'):
            s.entry(f).nn = s.off[f][2] if len(s.off[f]) > 2 else True

    def begin(self, eng, st):
        st.auto = ()
        self.eng = eng

    def on_call(self, eng, st, ev):
        if ev.kind == 'fn' and ev.name in PARTS:
            self.g(st, ev.name, ev.res if ev.res is not None else K(0))
        elif ev.kind == 'fn' and ev.name == 'splineInit':
            self.g(st, 'spl', ev.args[0])
            self.g(st, 'splr', ev.res)

    def g(self, st, n, v=None):
        return self.eng.ghost(st, n, v)

    def atleast(self, st, a, b):
        """a >= b known?"""
        return below(st, X.sub(X.sub(b, a), K(1)))

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        for k in PARTS:
            r = self.g(st, k)
            if r is not None and st.eq(r, val) and st.known(X.eq(r, K(0))) is None:
                # the result of a part, handed on: what it says is assumed
                if not st.assume(X.eq(r, K(0)), True):
                    return
        self.count('success exits', inst)
        s = self.s
        e, now, flag = s.entry, (lambda f: s.now(st, f)), (lambda m: s.flag(st, m))
        idx, var, bm, mm, bn, rl = (flag(m) for m in (F_INDEX, F_VDATA, F_BMAP, F_MAXMIN, F_BIN, F_RLC))

        def need(ok, msg, key):
            if not ok:
                self.report(eng, inst, 'the configuration is accepted although %s' % msg, st, key)

        def same(f, want, what=''):
            v = now(f)
            if not st.eq(v, want) and eqknown(st, v, want) is not True:
                self.report(eng, inst, '%s is %s, not %s%s' % (f, X.show(v), X.show(want), what), st, f)
        k, d, E = e('keySize'), e('dataSize'), e('eraseSizeInPages')
        need(self.atleast(st, k, K(1)) and self.atleast(st, K(8), k), 'the key size may be outside 1 to 8', 'keySize')
        need(self.atleast(st, d, K(0)), 'the data size may be negative', 'dataSize')
        need(st.known(X.eq(E, K(0))) is False, 'the erase size may be 0', 'eraseSizeInPages')

        def multiple(f):
            need(st.known(X.eq(X.op('urem', e(f), E, nn=True), K(0))) is True, '%s may be no multiple of the erase size' % f, f + '-multiple')
        multiple('numDataPages')
        n = max(4 if rl is not False else 2, 4 if idx is not False else 2)
        need(self.atleast(st, e('numDataPages'), X.scale(E, n)), 'there may be fewer than %d erase blocks of data pages' % n, 'numDataPages')
        rec = X.add(k, d)
        if var is None or idx is None:
            return need(False, 'it is not found out whether an index and variable data are used', 'flags')
        if var:
            rec = X.add(rec, K(4))
            multiple('numVarPages')
            need(st.known(X.eq(e('numVarPages'), K(0))) is False, 'there may be no variable data pages', 'numVarPages')
            m = 6 if idx else 4
            need(self.atleast(st, e('bufferSizeInBlocks'), K(m)), 'the buffer may have fewer than %d pages for variable data' % m, 'buffer-var')
        else:
            same('varFile', K(0), ' without variable data')
        if idx:
            multiple('numIndexPages')
            need(self.atleast(st, e('bufferSizeInBlocks'), K(4)), 'the buffer may have fewer than 4 pages for an index', 'buffer-index')
        else:
            same('indexFile', K(0), ' without an index')
        same('recordSize', rec)
        need(self.atleast(st, K(127), rec), 'the record size may not fit', 'record-fit')
        head = K(6)
        if idx or bm:
            bs = e('bitmapSize')
            need(self.atleast(st, bs, K(1)), 'the bitmap may have no bytes', 'bitmapSize')
            head = X.add(head, bs)
        elif bm is None:
            return need(False, 'it is not found out whether bitmaps are used', 'flags')
        if mm:
            need(self.atleast(st, K(MIN_OFFSET), head), 'the bitmap may reach the minimum and maximum', 'bitmap-fit')
            head = X.add(K(MIN_OFFSET), X.scale(X.add(k, d), 2))
        elif mm is None:
            return need(False, 'it is not found out whether minimum and maximum are used', 'flags')
        same('headerSize', head)
        need(self.atleast(st, K(127), head), 'the header size may not fit', 'header-fit')
        need(self.atleast(st, e('pageSize'), X.add(head, rec)), 'a page may not hold one record', 'pageSize')
        q = [X.op(o, X.sub(e('pageSize'), now('headerSize')), now('recordSize')) for o in ('sdiv', 'udiv')]
        if now('maxRecordsPerPage') not in q:
            self.report(eng, inst, 'maxRecordsPerPage is %s, not %s' % (X.show(now('maxRecordsPerPage')), X.show(q[0])), st, 'maxRecordsPerPage')
        if not st.eq(now('maxError'), now('maxRecordsPerPage')):
            self.report(eng, inst, 'maxError is %s, not the records of a page' % X.show(now('maxError')), st, 'maxError')
        for f in ('bufferedPageId', 'bufferedIndexPageId', 'bufferedVarPage'):
            same(f, K(-1))
        if bn is None:
            return need(False, 'it is not found out whether a spline is used', 'flags')
        if not bn:
            need(self.atleast(st, e('numSplinePoints'), K(4)), 'the spline may have fewer than 4 points', 'numSplinePoints')
            r = self.g(st, 'splr')
            if r is None or st.known(X.eq(r, K(0))) is not True or not st.eq(self.g(st, 'spl'), now('spl')):
                self.report(eng, inst, 'success without the spline having been initialised', st, 'spl')
        for p, f in PARTS.items():
            if p not in eng.m.funcs or f and not flag(f):
                continue
            r = self.g(st, p)
            if r is None or st.known(X.eq(r, K(0))) is not True:
                self.report(eng, inst, 'success is reported although %s %s' % (p, 'was not called' if r is None else 'may have failed'), st, p)


class PartConfig(DBRule):
    """what the parts of embedDBInit refuse, and the layout they compute"""
    name = 'part-config'
    notrunc = True
    flags_needed = frozenset((F_INDEX, F_RLC, F_RESET))
    FILE = {'embedDBInitData': 'dataFile', 'embedDBInitIndex': 'indexFile', 'embedDBInitVarData': 'varFile'}

    def preset(self, eng, st):
        s = self.s
        for f in ('numIndexPages', 'numVarPages', 'numDataPages', 'eraseSizeInPages', 'bitmapSize', 'pageSize', 'nextDataPageId'):
            s.entry(f).nn = True
        st._add(s.buf(), 1, None, None)

    def begin(self, eng, st):
        st.auto = ()

    def on_file(self, eng, st, ev):
        # what is recovered from an existing file is not looked at here
        if ev.name == 'open' and X.isk(ev.args[1]) and ev.args[1].a == 1 and ev.res.a == 1:
            st.auto = (('r', 1),)

    def on_ret(self, eng, st, inst, val):
        s = self.s
        e, now = s.entry, lambda f: s.now(st, f)
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)

        def same(f, *want):
            v = now(f)
            if not any(st.eq(v, w) for w in want):
                self.report(eng, inst, '%s is %s, not %s' % (f, X.show(v), X.show(want[0])), st, f)
        f = self.FILE.get(eng.fn.name)
        if f is None:
            return
        if st.known(X.eq(e(f), K(0))) is not False:
            self.report(eng, inst, 'success is reported although there may be no %s' % f, st, f)
        E = e('eraseSizeInPages')
        if f == 'indexFile':
            n = e('numIndexPages')
            if not below(st, X.sub(X.sub(X.scale(E, 2), n), K(1))):
                self.report(eng, inst, 'there may be fewer than two erase blocks of index pages', st, 'numIndexPages')
            if st.known(X.eq(X.op('urem', n, E, nn=True), K(0))) is not True:
                self.report(eng, inst, 'numIndexPages may be no multiple of the erase size', st, 'index-multiple')
            room = X.sub(e('pageSize'), K(16))
            if now('maxIdxRecordsPerPage') not in [X.op(o, room, e('bitmapSize')) for o in ('sdiv', 'udiv')]:
                self.report(eng, inst, 'maxIdxRecordsPerPage is %s, not the bitmaps that fit behind the header' % X.show(now('maxIdxRecordsPerPage')), st, 'maxIdxRecordsPerPage')
            if not below(st, X.sub(X.sub(e('bitmapSize'), room), K(1))):
                self.report(eng, inst, 'an index page may not hold one bitmap', st, 'index-page')
            if not items(st.auto):
                # the first bitmap to be added is that of the next data page
                p = eng.load(st, s.slotaddr(2, 8), 4)
                if not st.eq(p, e('nextDataPageId')):
                    self.report(eng, inst, 'the index page under construction begins with data page %s, not the next data page' % X.show(p), st, 'index-first')
        elif f == 'varFile':
            same('variableDataHeaderSize', X.add(e('keySize'), K(4)))
        if items(st.auto):
            return
        F = FILES[f]
        num = e(F['num'])
        same(F['next'], K(0))
        if F['min']:
            same(F['min'], K(0))
        if f == 'dataFile' and s.flag(st, F_RLC) is not False:
            same(F['avail'], X.sub(num, X.scale(E, 2)))
            same('nextRLCPhysicalPageLocation', E)
            same('rlcPhysicalStartingPage', E)
        else:
            same(F['avail'], num)
        if f == 'varFile':
            same('currentVarLoc', X.add(e('keySize'), K(4)))
            same('minVarRecordId', K(-1), K((1 << 64) - 1))
            same('recordHasVarData', K(0))
