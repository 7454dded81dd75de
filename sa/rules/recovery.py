"""Rules about recovery: what embedDBInit takes over from existing files."""
from .. import expr as X
from ..expr import K, LD
from ..base import *
from .records import items, put, param, recidx

W_PLUS, R_PLUS = 0, 1
STATS = ('numReads', 'numWrites', 'bufferHits', 'numIdxReads', 'numIdxWrites')


class part:
    """the part of embedDBInit analysed: its function for one file, or all of it if there is no such function"""

    def __init__(self, name):
        self.label = self.name = name

    def __call__(self, m):
        return self.name if self.name in m.funcs else 'embedDBInit'


class Recover(DBRule):
    """which pages of an existing file are accepted, and what is concluded from them"""
    FILE, SLOT, TRIES = 'dataFile', 1, 2
    name = 'recover-data'
    linrel = True
    notrunc = True
    NOINLINE = ANCHORS + ['getMaxError']
    PURE = ('getMaxError',)

    # auto: o the file was opened with its contents, t candidates for the first page refused, f first page accepted,
    # p a page was read and not yet judged, s why the scan stopped (r refused, w full, e unreadable),
    # b the page at the next block boundary (p read, v valid, n not), m first page number set, x erase at the boundary
    def preset(self, eng, st):
        s = self.s
        for f in ('pageSize', 'eraseSizeInPages', 'numDataPages', 'numIndexPages', 'numVarPages', 'bitmapSize'):
            s.entry(f).nn = True
        st._add(s.buf(), 1, None, None)
        if eng.fn.name != 'embedDBInit':
            # what embedDBInit has checked before
            DBRule.preset(self, eng, st)
            num, B = s.entry(FILES[self.FILE]['num']), s.entry('eraseSizeInPages')
            st._add(num, 1, None, None)
            for f in FILES.values():
                eng.store(st, s.addr(f['cache']), 4, K(-1))
            st.assume(X.eq(X.op('urem', num, B, nn=True), K(0)), True)
            st.assume(X.ltu(num, X.scale(B, 2)), False)

    def begin(self, eng, st):
        s = self.s
        st.auto = ()
        self.eng = eng
        # the statistics decide nothing: their values are not followed
        self.opaque = {}
        for f in STATS:
            if f in s.off:
                self.opaque[s.addr(f)] = o = X.SYM('stat:' + f, 32)
                eng.store(st, s.addr(f), 4, o)
        self.f = FILES[self.FILE]
        self.num = s.entry(self.f['num'])
        self.B = s.entry('eraseSizeInPages')

    @staticmethod
    def entails(st, d):
        return below(st, X.sub(d, K(1)))

    def rep(self, eng, st, inst, msg, key):
        if 'F' not in items(st.auto):
            self.report(eng, inst, msg, st, key)
            st.auto = (('F', 1),)

    def slot(self, st):
        return self.SLOT

    def id(self, st):
        return self.s.pageid(st, self.slot(st))

    def g(self, st, n, v=None):
        return self.eng.ghost(st, n, v)

    # ------------------------------------------------------------ judging pages
    def placed(self, st, pos):
        return eqknown(st, X.op('urem', self.id(st), self.num, nn=True), pos)

    def plausible(self, st):
        """True/False/None: the page could be a page (its record count is one a page may have)"""
        s = self.s
        c = s.count(st, self.slot(st))
        c.nn = True
        z = st.known(X.eq(c, K(0)))
        m = st.known(X.lts(s.now(st, 'maxRecordsPerPage'), c))
        if z is True or m is True:
            return False
        return True if z is False and m is False else None

    def judge(self, st):
        """True/False/None: is the page in the buffer the next page of the data?"""
        pos = self.g(st, 'pos')
        ok = self.placed(st, pos)
        if 'f' not in items(st.auto):
            p = self.plausible(st)
            if ok is False or p is False:
                return False
            return True if ok and p else None
        if ltknown(st, pos, self.num) is False:
            return False
        n = eqknown(st, self.id(st), X.add(self.g(st, 'last'), K(1)))
        if n is False or ok is False:
            return False
        return n

    def settle(self, eng, st, final=False):
        a = items(st.auto)
        if 'p' not in a or 'F' in a:
            return
        j = self.judge(st)
        pos = self.g(st, 'pos')
        if j is False:
            if 'f' in a:
                st.auto = put(st.auto, p=None, s='w' if ltknown(st, pos, self.num) is False else 'r')
            else:
                st.auto = put(st.auto, p=None, t=a.get('t', 0) + 1)
        elif final:
            if j is None:
                self.rep(eng, st, self.at(eng), 'page %s is used without its page number having been checked against %s' % (
                    X.show(pos), 'its position and its record count' if 'f' not in a else 'that of the page before and its position'), 'unjudged')
                return
            self.g(st, 'last', self.id(st))
            self.g(st, 'lpos', pos)
            if 'f' not in a:
                self.g(st, 'fpos', pos)
                self.g(st, 'fid', self.id(st))
            st.auto = put(st.auto, p=None, t=None, f=1)

    def at(self, eng):
        return eng.cur

    # ------------------------------------------------------------ events
    def on_file(self, eng, st, ev):
        a = items(st.auto)
        if 'F' in a:
            return
        file = ev.info['file']
        if ev.name == 'open' and file == self.FILE:
            m = ev.args[1]
            if X.isk(m) and m.a == R_PLUS and ev.res.a == 1:
                st.auto = put(st.auto, o=1)
            return
        if file != self.FILE or 'o' not in a:
            return
        if ev.name == 'read':
            self.read(eng, st, ev)
        elif ev.name == 'erase':
            self.erase(eng, st, ev)

    def on_assume(self, eng, st, inst):
        a = items(st.auto)
        if 'F' in a or 'o' not in a:
            return
        if 'p' in a:
            self.settle(eng, st)
        if a.get('s') == 'r' and 'b' not in a:
            # the next block boundary is never the page the scan stopped at: it is 1 to B pages on, and num >= 2B
            n, b = self.boundary(st)
            if st.known(X.eq(X.op('urem', b, self.num, nn=True), n)) is True and ltknown(st, self.num, X.scale(self.B, 2)) is False:
                st.auto = (('F', 1),)
                return
        if a.get('b') == 'p':
            k = self.placed(st, self.g(st, 'bpos'))
            if k is not None:
                st.auto = put(st.auto, b='v' if k else 'n')
                self.g(st, 'bid', self.id(st))

    def boundary(self, st):
        """first page of the block behind the one the scan stopped in"""
        n = X.add(self.g(st, 'lpos'), K(1))
        return n, X.add(n, X.sub(self.B, X.op('urem', n, self.B, nn=True)))

    def same(self, st, a, b):
        """the same page?"""
        strip = lambda e: e.a[0] if e.k == 'urem' and e.a[1] is self.num else e
        return st.eq(a, b) or st.eq(strip(a), strip(b))

    def inring(self, st, pos, b):
        """is pos the page at b, counted on around the file?"""
        if pos.k == 'urem' and pos.a[1] is self.num:
            return st.eq(pos.a[0], b)
        if st.eq(pos, b):
            return ltknown(st, b, self.num) is True or below(st, X.sub(b, self.num))
        return eqknown(st, X.add(pos, self.num), b) is True

    def candidate(self, st, a, t):
        """position of the t-th candidate for the first page"""
        return X.scale(self.B, t)

    def read(self, eng, st, ev):
        s = self.s
        sl = s.slot_of(ev.args[0])
        if sl is None or sl[0] != self.slot(st):
            return
        a = items(st.auto)
        pos = ev.args[1]
        if 'm' in a:
            return
        self.count('pages read', ev.inst)
        if 's' not in a and 'f' in a:
            exp = X.add(self.g(st, 'lpos'), K(1))
            if not st.eq(pos, exp):
                return self.rep(eng, st, ev.inst, 'page %s is read after page %s was accepted; the next page is at %s' % (X.show(pos), X.show(self.g(st, 'lpos')), X.show(exp)), 'scan-order')
            if ev.res.a == 0:
                full = ltknown(st, exp, self.num) is False
                st.auto = put(st.auto, s='w' if full else 'e')
            else:
                self.g(st, 'pos', pos)
                st.auto = put(st.auto, p=1)
        elif 'f' not in a:
            if 's' in a:
                return
            exp = self.candidate(st, a, a.get('t', 0))
            if a.get('t', 0) < self.TRIES and not st.eq(pos, exp):
                return self.rep(eng, st, ev.inst, 'page %s is read to find the first page after %d pages were refused; it should be page %s' % (X.show(pos), a.get('t', 0), X.show(exp)), 'first-order')
            if ev.res.a == 0:
                st.auto = put(st.auto, s='e')
            elif a.get('t', 0) < self.TRIES:
                self.g(st, 'pos', pos)
                st.auto = put(st.auto, p=1)
        elif a['s'] == 'r' and 'b' not in a:
            self.boundary_read(eng, st, ev, pos)

    def boundary_read(self, eng, st, ev, pos):
        n, b = self.boundary(st)
        if not self.inring(st, pos, b):
            return self.rep(eng, st, ev.inst, 'after the scan stopped at page %s, page %s is looked at for the first page; it should be the next block boundary, %s' % (
                X.show(n), X.show(pos), X.show(b)), 'boundary')
        self.count('block boundaries', ev.inst)
        aligned = st.known(X.eq(X.op('urem', n, self.B, nn=True), K(0)))
        if aligned is not False and 'x' not in items(st.auto) and ev.res.a == 1:
            k = st.known(X.eq(X.sub(b, n), self.B))
            if k is not False:
                return self.rep(eng, st, ev.inst, 'the scan may have stopped at a block boundary (page %s): the block skipped must have been erased, it is written next' % X.show(n), 'skip-erase')
        if ev.res.a == 1:
            self.g(st, 'bpos', pos)
            st.auto = put(st.auto, b='p')

    def erase(self, eng, st, ev):
        a = items(st.auto)
        self.count('erases', ev.inst)
        if 's' not in a or 'm' in a or 'f' not in a:
            return self.rep(eng, st, ev.inst, 'pages are erased while the pages are still being looked for', 'early-erase')
        n, b = self.boundary(st)
        if st.known(X.eq(X.op('urem', n, self.B, nn=True), K(0))) is not True and st.known(X.eq(X.sub(b, n), self.B)) is not True:
            return self.rep(eng, st, ev.inst, 'page %s is not known to be at a block boundary, and pages from %s are erased' % (X.show(n), X.show(ev.args[0])), 'erase-where')
        if not self.same(st, ev.args[0], n) or not st.eq(X.sub(ev.args[1], ev.args[0]), self.B):
            return self.rep(eng, st, ev.inst, 'pages %s to %s are erased instead of the block at %s' % (X.show(ev.args[0]), X.show(ev.args[1]), X.show(n)), 'erase-range')
        if ev.res.a == 1:
            st.auto = put(st.auto, x=1)

    def before_file(self, eng, st, ev):
        # before the buffer is read into again, the page in it must have been judged
        if ev.name == 'read' and ev.info['file'] == self.FILE and 'o' in items(st.auto):
            sl = self.s.slot_of(ev.args[0])
            if sl is not None and sl[0] == self.slot(st):
                self.settle(eng, st, True)

    def on_store(self, eng, st, inst, addr, size, val, old):
        if addr in self.opaque:
            eng.store(st, addr, size, self.opaque[addr])
            return
        a = items(st.auto)
        if 'F' in a or 'o' not in a:
            return
        f = self.s.field(addr)
        if f == self.f['next']:
            self.settle(eng, st, True)
        elif f == self.f['min']:
            self.settle(eng, st, True)
            self.minstore(eng, st, inst, val)

    def minstore(self, eng, st, inst, val):
        a = items(st.auto)
        if 'F' in a:
            return
        s = self.s
        self.count('first page numbers set', inst)
        if 'f' not in a:
            return self.rep(eng, st, inst, 'the first page number is set to %s although no page was accepted' % X.show(val), 'min-none')
        if 's' not in a:
            if ltknown(st, X.add(self.g(st, 'lpos'), K(1)), self.num) is False:
                a['s'] = 'w'
            else:
                return self.rep(eng, st, inst, 'the first page number is set before the last page was found', 'min-early')
        if a['s'] == 'r' and a.get('b') not in ('v', 'n'):
            return self.rep(eng, st, inst, 'the first page number is set without looking whether data begins at the next block boundary', 'min-boundary')
        g = 'b' if a.get('b') == 'v' else 'f'
        want = self.g(st, g + 'pos')
        here = s.now(st, self.f['cache'])
        if not (st.eq(val, self.g(st, g + 'id')) or st.eq(val, self.id(st)) and self.same(st, here, want)):
            return self.rep(eng, st, inst, 'the first page number is set to %s; it should be the number of page %s (%s)' % (
                X.show(val), X.show(want), 'the next block boundary' if g == 'b' else 'the first page accepted'), 'min')
        st.auto = put(st.auto, m=1)
        if self.SPLINE:
            self.g(st, 'sn', s.now(st, self.f['min']))

    SPLINE = False
    flags_needed = frozenset((F_BIN,))

    def on_enter(self, eng, st, block):
        a = items(st.auto)
        if not self.SPLINE or 'm' not in a or 'c' in a or 'F' in a:
            return
        # all pages added? Remembered, as the relation is lost where paths join
        if below(st, X.sub(X.sub(self.s.now(st, self.f['next']), self.g(st, 'sn')), K(1))):
            st.auto = put(st.auto, c=1)

    def on_call(self, eng, st, ev):
        a = items(st.auto)
        if 'F' in a or not self.SPLINE or ev.kind != 'fn' or ev.name != 'splineAdd':
            return
        self.count('spline points', ev.inst)
        s = self.s
        if 'm' not in a:
            return self.rep(eng, st, ev.inst, 'a page is added to the spline before the first page is known', 'spline-early')
        sn = self.g(st, 'sn')
        if 'c' in a:
            return self.rep(eng, st, ev.inst, 'page %s is added to the spline after all pages' % X.show(ev.args[2]), 'spline-extra')
        if not st.eq(ev.args[2], sn):
            return self.rep(eng, st, ev.inst, 'page %s is added to the spline; the next one is page %s' % (X.show(ev.args[2]), X.show(sn)), 'spline-order')
        here = s.now(st, self.f['cache'])
        if not self.same(st, here, sn) or here is sn:
            return self.rep(eng, st, ev.inst, 'page %s is added to the spline while the buffer holds the page at %s' % (X.show(sn), X.show(here)), 'spline-page')
        if not st.eq(ev.args[1], X.add(s.slotaddr(1), s.now(st, 'headerSize'))):
            return self.rep(eng, st, ev.inst, 'the key added to the spline is at %s, not the first key of the page read' % X.show(ev.args[1]), 'spline-key')
        self.g(st, 'sn', X.add(sn, K(1)))

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        if 'F' in a or val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        s = self.s
        now = lambda f: s.now(st, f)
        nx, av = now(self.f['next']), now(self.f['avail'])
        mn = now(self.f['min'])
        if 'f' not in a:
            if 'o' in a and 's' not in a and a.get('t', 0) < self.TRIES:
                return self.rep(eng, st, inst, 'the file is taken to be empty although page %s was not looked at' % X.show(self.candidate(st, a, a.get('t', 0))), 'empty')
            for v, w, n in ((nx, K(0), 'next'), (mn, K(0), 'min'), (av, X.sub(self.num, self.reserve(st)), 'avail')):
                if not st.eq(v, w):
                    return self.rep(eng, st, inst, '%s is %s for an empty file, not %s' % (self.f[n], X.show(v), X.show(w)), 'empty-' + n)
            return
        if 'm' not in a:
            return self.rep(eng, st, inst, 'pages were accepted but %s is not set' % self.f['min'], 'min-unset')
        want = X.add(self.g(st, 'last'), K(1))
        if not st.eq(nx, want):
            return self.rep(eng, st, inst, '%s is %s; it should follow the last page accepted, %s' % (self.f['next'], X.show(nx), X.show(want)), 'next')
        want = X.sub(X.add(self.num, X.sub(mn, nx)), self.reserve(st))
        if not st.eq(av, want):
            return self.rep(eng, st, inst, '%s is %s; it should be %s' % (self.f['avail'], X.show(av), X.show(want)), 'avail')
        if self.SPLINE and s.flag(st, F_BIN) is not True:
            self.on_enter(eng, st, None)
            sn = self.g(st, 'sn')
            if 'c' not in items(st.auto):
                return self.rep(eng, st, inst, 'pages from %s on are not added to the spline (the next page is %s)' % (X.show(sn), X.show(nx)), 'spline-all')

    def reserve(self, st):
        return K(0)


class RecoverData(Recover):
    """recovery of data pages without record-level consistency"""
    SPLINE = True

    def begin(self, eng, st):
        Recover.begin(self, eng, st)
        st.assume(self.s.flagcond(F_RLC), False)


class RecoverRlc(Recover):
    """recovery of data pages and of the records saved by record-level consistency"""
    TRIES = 4
    SPLINE = True

    # auto: q a page of the two blocks was read and not yet judged, k one was taken, w it was put into the write buffer,
    # e1 e2 blocks erased
    def begin(self, eng, st):
        Recover.begin(self, eng, st)
        st.assume(self.s.flagcond(F_RLC), True)

    def reserve(self, st):
        return X.scale(self.B, 2)

    def scan_end(self, st):
        return X.add(self.g(st, 'lpos'), K(1)) if 'f' in items(st.auto) else K(0)

    def boundary(self, st):
        n = self.scan_end(st)
        return n, X.add(n, X.sub(self.B, X.op('urem', n, self.B, nn=True) if not X.isk(n) else K(0)))

    def wrap(self, e):
        return X.op('urem', e, self.num, nn=True)

    def base(self, st):
        """first page of the two blocks"""
        if 'q0' in items(st.auto):
            return self.g(st, 'base')
        return self.wrap(self.boundary(st)[1])

    def forms(self, e):
        """equivalent forms modulo the number of pages"""
        out = [e]
        if e.k == 'urem' and e.a[1] is self.num:
            e = e.a[0]
            out.append(e)
        c, t = X.terms(e)
        r = K(c)
        for x, k in t.items():
            r = X.add(r, X.scale(x.a[0] if x.k == 'urem' and x.a[1] is self.num else x, k))
        if r is not e:
            out.append(r)
        return out

    def same(self, st, a, b):
        fa, fb = self.forms(a), self.forms(b)
        return any(st.eq(x, y) for x in fa for y in fb) or any(st.eq(a, self.wrap(y)) for y in fb) or any(st.eq(self.wrap(x), b) for x in fa)

    def at_plus(self, st, pos, n):
        return self.same(st, pos, X.add(self.base(st), n))

    def done(self, st):
        """the search for data pages is over"""
        a = items(st.auto)
        if 's' in a:
            return True
        return 'f' not in a and a.get('t', 0) >= self.TRIES

    def read(self, eng, st, ev):
        s = self.s
        a = items(st.auto)
        pos = ev.args[1]
        if 'm' in a:
            return
        if not self.done(st) or self.looking(st, a):
            return Recover.read(self, eng, st, ev)
        self.count('pages read', ev.inst)
        if 'z' not in a:
            if 'q0' not in a:
                # first page of the blocks
                n, b = self.boundary(st)
                if not self.same(st, pos, self.base(st)):
                    return          # where the blocks begin is compared at the exits
                self.count('block boundaries', ev.inst)
                self.aligned(eng, st, ev.inst, n, b)
                if 'F' in items(st.auto):
                    return
                self.g(st, 'k', K(0))
                self.g(st, 'rp', pos)
                self.g(st, 'base', pos)
                st.auto = put(st.auto, q0=1, q=1 if ev.res.a else None, z=None if ev.res.a else 1, s='r', t=None, x=None)
                return
            k = X.add(self.g(st, 'k'), K(1))
            nxt = self.wrap(X.add(self.g(st, 'rp'), K(1)))
            if self.same(st, pos, nxt) or self.at_plus(st, pos, k):
                self.g(st, 'k', k)
                self.g(st, 'rp', pos)
                st.auto = put(st.auto, q=1 if ev.res.a else None, z=None if ev.res.a else 1)
                return
            if ltknown(st, X.add(self.g(st, 'k'), K(1)), X.scale(self.B, 2)) is not False and not below(st, X.sub(X.scale(self.B, 2), X.add(self.g(st, 'k'), K(2)))):
                return self.rep(eng, st, ev.inst, 'page %s is read before all pages of the temporary blocks were looked at (the next one is %s)' % (X.show(pos), X.show(nxt)), 'rlc-order')
            st.auto = put(st.auto, z=1)
        if self.at_plus(st, pos, X.scale(self.B, 2)) and ev.res.a == 0:
            st.auto = put(st.auto, b='n')

    def looking(self, st, a):
        return False

    def aligned(self, eng, st, inst, n, b):
        r = K(0) if X.isk(n) else X.op('urem', n, self.B, nn=True)
        if 'x' in items(st.auto):
            return
        if (X.isk(n) or st.known(X.eq(r, K(0))) is not False) and st.known(X.eq(X.sub(b, n), self.B)) is not False:
            self.rep(eng, st, inst, 'the scan may have stopped at a block boundary (page %s): the block skipped must have been erased, it is written next' % X.show(n), 'skip-erase')

    def before_file(self, eng, st, ev):
        Recover.before_file(self, eng, st, ev)
        if ev.name == 'read' and ev.info['file'] == self.FILE:
            self.pick(eng, st, True)

    def on_assume(self, eng, st, inst):
        Recover.on_assume(self, eng, st, inst)
        a = items(st.auto)
        if 'F' in a or 'o' not in a:
            return
        if 'q0' not in a and self.done(st):
            # the blocks begin 1 to B pages behind the last page looked at
            if st.known(X.eq(self.s.now(st, self.f['cache']), self.base(st))) is True:
                st.auto = (('F', 1),)
                return
        if 'q0' in a:
            # there is more than one page: the next page is another one
            rp = self.g(st, 'rp')
            # and page numbers do not reach their limit
            nx = [X.add(rp, K(1))] + [X.add(b, X.add(self.g(st, 'k'), K(1))) for b in self.forms(self.base(st))]
            if any(st.known(X.eq(rp, self.wrap(x))) is True for x in nx) or 'f' in a and eqknown(st, X.add(self.g(st, 'last'), K(1)), K(-1)) is True:
                st.auto = (('F', 1),)
                return
        if 'w' in a and 'h' not in a:
            # which block the page taken is in; remembered, as the fact may be lost where paths join
            h = ltknown(st, self.g(st, 'bk'), self.B)
            if h is not None:
                st.auto = put(st.auto, h=1 if h else 2)
                a = items(st.auto)
        if 'q' in a:
            self.pick(eng, st)
        elif self.done(st) and 'b' not in a and 'f' in a and 'q0' in a:
            here = self.s.now(st, self.f['cache'])
            if self.at_plus(st, here, X.scale(self.B, 2)):
                k = self.placed(st, self.wrap(X.add(self.base(st), X.scale(self.B, 2))))
                if k is None:
                    k = self.placed(st, here)
                if k is not None:
                    st.auto = put(st.auto, b='v' if k else 'n')
                    self.g(st, 'bid', self.id(st))
                    self.g(st, 'bpos', here)

    def pick(self, eng, st, final=False):
        """the page of the temporary blocks with the most records of the page that comes next is the one to take"""
        a = items(st.auto)
        if 'q' not in a or 'F' in a:
            return
        k = self.g(st, 'k')
        drop = lambda: setattr(st, 'auto', put(st.auto, q=None))
        if below(st, X.sub(X.sub(X.scale(self.B, 2), k), K(1))):
            st.auto = put(st.auto, q=None, z=1)
            return
        i = self.id(st)
        if 'f' in a:
            c = eqknown(st, i, X.add(self.g(st, 'last'), K(1)))
        else:
            # nothing is stored: the temporary pages are those of the first page
            i.nn = True
            c = ltknown(st, i, K(2))
        n = self.s.count(st, 1)
        n.nn = True
        better = True if 'k' not in a else ltknown(st, self.g(st, 'bc'), n)
        if c is False or better is False:
            drop()
        elif c and better:
            self.g(st, 'bc', n)
            self.g(st, 'bk', k)
            self.g(st, 'bp', self.g(st, 'rp'))
            st.auto = put(st.auto, k=1, q=None)
        elif final:
            self.rep(eng, st, self.at(eng), 'page %s of the temporary blocks is passed over without %s' % (
                X.show(self.g(st, 'rp')), 'its record count having been compared with that of the page taken so far' if c else 'its number having been compared with that of the next page'), 'rlc-unjudged')

    def erase(self, eng, st, ev):
        a = items(st.auto)
        if 'm' in a:
            return self.rep(eng, st, ev.inst, 'pages are erased after recovery', 'late-erase')
        if 'q0' not in a:
            if not self.done(st) and ltknown(st, X.add(self.g(st, 'lpos'), K(1)), self.num) is not False if 'f' in a else not self.done(st):
                return self.rep(eng, st, ev.inst, 'pages are erased while the pages are still being looked for', 'early-erase')
            self.count('erases', ev.inst)
            n, b = self.boundary(st)
            if not X.isk(n) and st.known(X.eq(X.op('urem', n, self.B, nn=True), K(0))) is not True and st.known(X.eq(X.sub(b, n), self.B)) is not True:
                return self.rep(eng, st, ev.inst, 'page %s is not known to be at a block boundary, and pages from %s are erased' % (X.show(n), X.show(ev.args[0])), 'erase-where')
            if not self.inside(st, ev.args[0], n) or not st.eq(X.sub(ev.args[1], ev.args[0]), self.B):
                return self.rep(eng, st, ev.inst, 'pages %s to %s are erased instead of the block at %s' % (X.show(ev.args[0]), X.show(ev.args[1]), X.show(n)), 'erase-range')
            if ev.res.a == 1:
                st.auto = put(st.auto, x=1)
            return
        self.count('erases', ev.inst)
        if 'q' in a:
            self.pick(eng, st, True)
            a = items(st.auto)
            if 'F' in a:
                return
        at = ev.args[0]
        if not st.eq(X.sub(ev.args[1], at), self.B):
            return self.rep(eng, st, ev.inst, 'pages %s to %s are erased: not one block' % (X.show(at), X.show(ev.args[1])), 'rlc-erase-size')
        if self.inside(st, at, self.base(st)):
            e = 'e1'
        elif self.inside(st, at, X.add(self.base(st), self.B)):
            e = 'e2'
        else:
            return self.rep(eng, st, ev.inst, 'pages from %s are erased; the temporary blocks begin at %s' % (X.show(at), X.show(self.base(st))), 'rlc-erase')
        if 'k' in a:
            first = a['h'] == 1 if 'h' in a else ltknown(st, self.g(st, 'bk'), self.B)
            if first is None or first is (e == 'e1'):
                return self.rep(eng, st, ev.inst, 'the block at %s is erased although it may hold the page taken' % X.show(at), 'rlc-erase-taken')
        if ev.res.a == 1:
            st.auto = put(st.auto, **{e: 1})

    def inside(self, st, a, b):
        """a is the page b modulo the number of pages, and inside the file"""
        if not self.same(st, a, b):
            return False
        return a.k == 'urem' and a.a[1] is self.num or X.isk(a) and a.a == 0 or ltknown(st, a, self.num) is True or below(st, X.sub(a, self.num))

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        d, r = s.slot_of(dst), s.slot_of(src)
        a = items(st.auto)
        if d is None or d[0] != 0 or 'F' in a or 'o' not in a:
            return
        self.count('pages restored', inst)
        if r is None or r[0] != 1 or not (X.isk(d[1]) and d[1].a == 0) or not (X.isk(r[1]) and r[1].a == 0) or not st.eq(n, s.entry('pageSize')):
            return self.rep(eng, st, inst, '%s bytes are copied from %s into the write buffer, not the page taken' % (X.show(n), X.show(src)), 'restore')
        here = s.now(st, self.f['cache'])
        if 'k' not in a or not (self.at_plus(st, here, self.g(st, 'bk')) or self.same(st, here, self.g(st, 'bp'))):
            return self.rep(eng, st, inst, 'page %s is put into the write buffer instead of the page of the temporary blocks with the most records' % X.show(here), 'restore-page')
        st.auto = put(st.auto, w=1)

    def minstore(self, eng, st, inst, val):
        a = items(st.auto)
        if 'F' in a or 'f' not in a:
            return Recover.minstore(self, eng, st, inst, val)
        if 'b' not in a:
            return self.rep(eng, st, inst, 'the first page number is set without looking whether data begins behind the temporary blocks', 'min-boundary')
        keep = st.auto
        st.auto = put(st.auto, s='r')
        Recover.minstore(self, eng, st, inst, val)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        if 'F' in a or val is None or st.known(X.eq(val, K(0))) is False:
            return
        s = self.s
        now = lambda f: s.now(st, f)
        rs, rn = now('rlcPhysicalStartingPage'), now('nextRLCPhysicalPageLocation')
        if 'o' in a:
            if 'q0' not in a:
                return self.rep(eng, st, inst, 'the pages of the temporary blocks were not looked at', 'rlc-none')
            if not self.same(st, rs, self.base(st)):
                return self.rep(eng, st, inst, 'the temporary blocks are taken to begin at %s instead of %s' % (X.show(rs), X.show(self.base(st))), 'rlc-begin')
            if 'k' in a:
                if 'w' not in a:
                    return self.rep(eng, st, inst, 'the records of the temporary page found are not put into the write buffer', 'rlc-lost')
                if not self.at_plus(st, rn, X.add(self.g(st, 'bk'), K(1))) and not self.same(st, rn, X.add(self.g(st, 'bp'), K(1))):
                    return self.rep(eng, st, inst, 'the next temporary page is %s, not the one behind the page taken' % X.show(rn), 'rlc-next')
                if 'e1' not in a and 'e2' not in a:
                    return self.rep(eng, st, inst, 'the temporary block without the page taken is not erased', 'rlc-not-erased')
            else:
                if not self.same(st, rn, self.base(st)):
                    return self.rep(eng, st, inst, 'the next temporary page is %s, not the first page of the blocks' % X.show(rn), 'rlc-next')
                if 'e1' not in a or 'e2' not in a:
                    return self.rep(eng, st, inst, 'the temporary blocks are not erased', 'rlc-not-erased')
        else:
            for v, f in ((rs, 'rlcPhysicalStartingPage'), (rn, 'nextRLCPhysicalPageLocation')):
                if not st.eq(v, self.B):
                    return self.rep(eng, st, inst, '%s is %s for an empty file' % (f, X.show(v)), 'rlc-empty')
        Recover.on_ret(self, eng, st, inst, val)


def blob(eng, st, addr, n):
    """the number in the n bytes at addr"""
    r, off = eng.split(addr)
    e = X.op('blob', addr, n, eng.hashable(eng.epoch(st, r, off)), w=64)
    e.nn = True
    return e


class RecoverIndex(Recover):
    """recovery of index pages"""
    FILE, SLOT, TRIES = 'indexFile', 3, 2

    def preset(self, eng, st):
        Recover.preset(self, eng, st)
        self.s.entry('bitmapSize').nn = True
        st._add(self.s.entry('bitmapSize'), 1, None, None)

    def plausible(self, st):
        s = self.s
        c = s.count(st, self.slot(st))
        c.nn = True
        z = st.known(X.eq(c, K(0)))
        m = st.known(X.lts(s.now(st, 'maxIdxRecordsPerPage'), c))
        if z is True or m is True:
            return False
        return True if z is False and m is False else None

    def wrapped(self, st):
        """is the page that ended the scan the oldest one, which is written over next?"""
        last = self.g(st, 'last')
        far = ltknown(st, last, self.num)
        nxt = eqknown(st, self.id(st), X.add(X.sub(last, self.num), K(1)))
        if far is True or nxt is False:
            return False
        return True if far is False and nxt else None

    def settle(self, eng, st, final=False):
        a = items(st.auto)
        if 'p' in a and 'f' in a and self.judge(st) is False and ltknown(st, self.g(st, 'pos'), self.num) is not False:
            w = self.wrapped(st)
            if w:
                self.g(st, 'bpos', self.g(st, 'pos'))
                self.g(st, 'bid', self.id(st))
                st.auto = put(st.auto, p=None, s='r', b='v', o=2)
                return
            if w is None:
                if not final:
                    return
                return self.rep(eng, st, self.at(eng), 'page %s ended the scan without having been compared with the oldest page number' % X.show(self.g(st, 'pos')), 'unjudged')
        Recover.settle(self, eng, st, final)

    def on_store(self, eng, st, inst, addr, size, val, old):
        if self.s.field(addr) != self.f['next']:
            Recover.on_store(self, eng, st, inst, addr, size, val, old)

    def minstore(self, eng, st, inst, val):
        if items(st.auto).get('o') == 2:
            # the oldest page is where its number says, which is where the scan stopped
            here = self.s.now(st, self.f['cache'])
            if self.same(st, here, X.op('urem', self.g(st, 'bid'), self.num, nn=True)):
                self.g(st, 'bpos', here)
        Recover.minstore(self, eng, st, inst, val)

    def read(self, eng, st, ev):
        if items(st.auto).get('o') == 2:
            return
        Recover.read(self, eng, st, ev)

    def boundary_read(self, eng, st, ev, pos):
        n, b = self.boundary(st)
        if not self.inring(st, pos, b):
            return self.rep(eng, st, ev.inst, 'after the scan stopped at page %s, page %s is looked at for the first page; it should be the next block boundary, %s' % (
                X.show(n), X.show(pos), X.show(b)), 'boundary')
        self.count('block boundaries', ev.inst)
        self.g(st, 'bpos', pos)
        st.auto = put(st.auto, b='p' if ev.res.a == 1 else 'n')

    def on_assume(self, eng, st, inst):
        a = items(st.auto)
        if a.get('b') == 'p':
            # the page at the boundary counts if it is in its place and older
            pl, old = self.placed(st, self.g(st, 'bpos')), ltknown(st, self.id(st), self.g(st, 'last'))
            if pl is False or old is False:
                st.auto = put(st.auto, b='n')
            elif pl and old:
                st.auto = put(st.auto, b='v')
                self.g(st, 'bid', self.id(st))
            return
        Recover.on_assume(self, eng, st, inst)


class RecoverVar(Recover):
    """recovery of variable-data pages"""
    FILE, TRIES = 'varFile', 2
    flags_needed = frozenset((F_INDEX, F_RLC))

    def slot(self, st):
        k = self.s.flag(st, F_INDEX)
        return 3 if k is False else 5

    def begin(self, eng, st):
        Recover.begin(self, eng, st)
        s = self.s
        self.klen = s.entry('keySize')
        self.klen.nn = True
        self.f = dict(self.f)
        self.f['min'] = 'minVarRecordId'

    def key(self, st):
        """largest key with data on the page in the buffer"""
        return blob(self.eng, st, self.s.slotaddr(self.slot(st), 4), self.klen)

    def judge(self, st):
        if 'f' in items(st.auto):
            return Recover.judge(self, st)
        pos = self.g(st, 'pos')
        ok = self.placed(st, pos)
        if ok is False:
            return False
        i = st.known(X.eq(self.id(st), K(0)))
        k = st.known(X.eq(self.key(st), K(0)))
        if i is False or k is False:
            # remembered, as the fact is lost where the two join
            st.auto = put(st.auto, n=1)
        if ok and 'n' in items(st.auto):
            return True
        if ok and i and k:
            return 'a'
        return None

    def settle(self, eng, st, final=False):
        a = items(st.auto)
        if 'p' not in a or 'F' in a:
            return
        j = self.judge(st)
        pos = self.g(st, 'pos')
        if j == 'a':
            # may be an erased page: the next one tells. Number 0 is in place at page 0 only
            if 'a' in a or 't' in a:
                st.auto = (('F', 1),)
                return
            self.g(st, 'cand', X.add(pos, K(1)))
            st.auto = put(st.auto, p=None, a=1, n=None)
            return
        if j is False and 'f' not in a:
            self.g(st, 'cand', X.add(pos, X.sub(self.B, X.op('urem', pos, self.B, nn=True))))
            st.auto = put(st.auto, p=None, t=a.get('t', 0) + 1, n=None)
            return
        if j is True and final and 'f' not in a:
            # the page before counts if it was in its place and this one follows it
            first = pos
            if 'a' in a and 't' not in a:
                e = eqknown(st, self.id(st), K(1))
                if e is None:
                    e = eqknown(st, self.id(st), pos)
                if e is None:
                    return self.rep(eng, st, self.at(eng), 'page %s is accepted without finding out whether page 0 before it is valid' % X.show(pos), 'unjudged')
                if e:
                    first = K(0)
            Recover.settle(self, eng, st, final)
            st.auto = put(st.auto, n=None)
            self.g(st, 'fpos', first if first is not pos or st.known(X.eq(self.id(st), K(0))) else X.op('urem', self.id(st), self.num, nn=True))
            return
        Recover.settle(self, eng, st, final)

    def partkey(self, eng, st):
        return st.known(X.eq(self.s.entry('nextDataPageId'), K(0)))

    def on_load(self, eng, st, inst, addr, size, val):
        if size == 4 and 'f' in items(st.auto):
            sl = self.s.slot_of(addr)
            if sl is not None and sl[0] == self.slot(st) and sl[1] is K(0):
                # the number of the page in the buffer, as it was last taken
                self.g(st, 'mid', val)
                self.g(st, 'mpos', self.s.now(st, self.f['cache']))

    def candidate(self, st, a, t):
        if 't' not in a and 'a' not in a:
            return K(0)
        return self.g(st, 'cand')

    def on_store(self, eng, st, inst, addr, size, val, old):
        if addr in self.opaque:
            eng.store(st, addr, size, self.opaque[addr])
            return
        a = items(st.auto)
        if 'F' in a or 'o' not in a:
            return
        if self.s.field(addr) == self.f['next']:
            self.settle(eng, st, True)
            a = items(st.auto)
            if 'F' in a:
                return
            if 's' not in a and 'f' in a:
                if ltknown(st, X.add(self.g(st, 'lpos'), K(1)), self.num) is False:
                    st.auto = put(st.auto, s='w')
                else:
                    return self.rep(eng, st, inst, 'the next page number is set before the last page was found', 'next-early')
            a = items(st.auto)
            if a.get('s') == 'r' and a.get('b') not in ('v', 'n'):
                return self.rep(eng, st, inst, 'the next page number is set without looking whether data begins at the next block boundary', 'min-boundary')
            st.auto = put(st.auto, m=1)
        # what is stored is compared where it is stored, as the relation may be lost where paths join
        k = {self.f['avail']: 'A', 'currentVarLoc': 'L', 'minVarRecordId': 'M'}.get(self.s.field(addr))
        if k and 'f' in items(st.auto):
            w = {'A': self.availed, 'L': self.located, 'M': self.keyed}[k](eng, st, val)
            st.auto = put(st.auto, **{k: None if w else 1})

    def want(self, st):
        return self.g(st, 'bpos' if items(st.auto).get('b') == 'v' else 'fpos')

    # each gives what is wrong, if anything: (message, key)
    def held(self, st, here=None):
        here = here or self.s.now(st, self.f['cache'])
        if not self.same(st, here, self.want(st)):
            return 'the buffer holds page %s; what is concluded should be from page %s (%s)' % (
                X.show(here), X.show(self.want(st)), 'the next block boundary' if items(st.auto).get('b') == 'v' else 'the first page accepted'), 'min'

    def availed(self, eng, st, av):
        nx = X.add(self.g(st, 'last'), K(1))
        w = X.add(self.num, X.sub(self.id(st), nx))
        if st.eq(av, w):
            return self.held(st)
        if not st.eq(av, X.add(self.num, X.sub(self.g(st, 'mid'), nx))):
            return '%s is %s; it should be %s' % (self.f['avail'], X.show(av), X.show(w)), 'avail'
        return self.held(st, self.g(st, 'mpos'))

    def located(self, eng, st, loc):
        s = self.s
        nx = X.add(self.g(st, 'last'), K(1))
        w = X.add(X.mul(X.op('urem', nx, self.num, nn=True), s.entry('pageSize')), s.now(st, 'variableDataHeaderSize'))
        nx = s.now(st, self.f['next'])
        w2 = X.add(X.mul(X.op('urem', nx, self.num, nn=True), s.entry('pageSize')), s.now(st, 'variableDataHeaderSize'))
        if not st.eq(loc, w) and not ('m' in items(st.auto) and st.eq(loc, w2)):
            return 'currentVarLoc is %s; it should be the data area of the next page, %s' % (X.show(loc), X.show(w)), 'loc'

    def keyed(self, eng, st, mn):
        s = self.s
        i = self.id(st)
        z = st.known(X.eq(i, K(0)))
        if z is None:
            return 'minVarRecordId is set without finding out whether pages were overwritten', 'key-unjudged'
        if z is False:
            w = X.add(self.key(st), K(1))
            if not st.eq(mn, w):
                return 'minVarRecordId is %s; it should be one more than the key in the header of the first page, %s' % (X.show(mn), X.show(w)), 'key'
            return self.held(st)
        rlc, none = s.flag(st, F_RLC), st.known(X.eq(s.entry('nextDataPageId'), K(0)))
        wb = rlc is True and none is True
        if rlc is None or none is None and rlc:
            return 'minVarRecordId is set without finding out where the first record is', 'key-where'
        if not wb and not st.eq(s.now(st, 'bufferedPageId'), X.op('urem', s.entry('minDataPageId'), s.entry('numDataPages'), nn=True)):
            return 'minVarRecordId is taken from the buffer with page %s; the first data page is page minDataPageId modulo the file' % X.show(s.now(st, 'bufferedPageId')), 'key-page'
        w = blob(eng, st, X.add(s.slotaddr(0 if wb else 1), s.now(st, 'headerSize')), self.klen)
        if not st.eq(mn, w):
            return 'minVarRecordId is %s; it should be the first key %s, %s' % (X.show(mn), 'of the write buffer' if wb else 'stored', X.show(w)), 'key-first'
        return self.held(st)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        if 'F' in a or val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        s = self.s
        now = lambda f: s.now(st, f)
        nx, av, loc, mn = now(self.f['next']), now(self.f['avail']), now('currentVarLoc'), now('minVarRecordId')
        if 'f' not in a:
            if 'o' in a and 's' not in a and a.get('t', 0) < self.TRIES:
                return self.rep(eng, st, inst, 'the file is taken to be empty although page %s was not looked at' % X.show(self.candidate(st, a, a.get('t', 0))), 'empty')
            for v, w, n in ((nx, K(0), self.f['next']), (av, self.num, self.f['avail']), (loc, now('variableDataHeaderSize'), 'currentVarLoc'), (mn, K(-1), 'minVarRecordId')):
                if not st.eq(v, w):
                    return self.rep(eng, st, inst, '%s is %s for an empty file, not %s' % (n, X.show(v), X.show(w)), 'empty-' + n)
            return
        if 'm' not in a:
            return self.rep(eng, st, inst, 'pages were accepted but %s is not set' % self.f['next'], 'next-unset')
        want = X.add(self.g(st, 'last'), K(1))
        if not st.eq(nx, want):
            return self.rep(eng, st, inst, '%s is %s; it should follow the last page accepted, %s' % (self.f['next'], X.show(nx), X.show(want)), 'next')
        self.count('first page numbers set', inst)
        for k, chk, x in (('A', self.availed, av), ('L', self.located, loc), ('M', self.keyed, mn)):
            w = k not in a and chk(eng, st, x)
            if w:
                return self.rep(eng, st, inst, *w)


class RecoverOpen(DBRule):
    """how the files are opened: contents are dropped only where that is asked for or nothing is stored"""
    name = 'recover-open'
    flags_needed = frozenset((F_RESET, F_RLC))

    # auto per file: <file>:r it was tried to open it with its contents, and failed; <file>:o it is open
    def begin(self, eng, st):
        st.auto = ()

    def partkey(self, eng, st):
        return st.known(X.eq(self.s.entry('nextDataPageId'), K(0)))

    def on_file(self, eng, st, ev):
        if ev.name != 'open' or ev.info['file'] not in FILES:
            return
        s = self.s
        f, m = ev.info['file'], ev.args[1]
        a = items(st.auto)
        if ev.res.a == 0:
            # counted once, where the call fails
            self.count('opens', ev.inst)
            if not X.isk(m):
                return self.report(eng, ev.inst, '%s is opened in mode %s, not known to be one of the modes' % (f, X.show(m)), st, 'mode')
            if m.a not in (W_PLUS, R_PLUS):
                return self.report(eng, ev.inst, '%s is opened in mode %d, which is neither of the modes' % (f, m.a), st, 'mode')
            if m.a == R_PLUS:
                if s.flag(st, F_RESET) is not False:
                    self.report(eng, ev.inst, '%s is opened with its contents although the configuration may ask for an empty database' % f, st, 'keep')
            elif s.flag(st, F_RESET) is not True and f + ':r' not in a:
                none = f == 'varFile' and s.flag(st, F_RLC) is False and st.known(X.eq(s.now(st, 'nextDataPageId'), K(0))) is True
                if not none:
                    self.report(eng, ev.inst, '%s is emptied although the configuration may ask to keep its contents and it was not found to be missing' % f, st, 'drop')
            st.auto = put(st.auto, **{f + ':r': 1 if m.a == R_PLUS else a.get(f + ':r')})
        else:
            st.auto = put(st.auto, **{f + ':o': 1})

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        if not any(k.endswith(':o') for k in items(st.auto)):
            self.report(eng, inst, 'success is reported although no file was opened', st, 'unopened')
