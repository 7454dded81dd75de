"""Rules about reading: lookups, iterators, variable-data streams."""
from .. import expr as X
from ..expr import K, LD
from ..base import *
from .records import rec, recidx, param, items, put, saturate


class V:
    """view of a struct passed by pointer"""

    def __init__(self, eng, ptr, sname):
        self.eng, self.p, self.sname = eng, ptr, sname
        if sname not in eng.m.fields:
            raise Broken('struct %s not found' % sname)
        self.off = {v[0]: (o, v[1], v[2]) for o, v in eng.m.fields[sname].items()}

    @classmethod
    def of(cls, eng, sname):
        for p in eng.params:
            if p.ptee == sname:
                return cls(eng, p, sname)
        raise Broken('%s has no parameter of type %s' % (eng.fn.name, sname))

    def addr(self, f):
        if f not in self.off:
            raise Broken('%s.%s not found' % (self.sname, f))
        return X.add(self.p, K(self.off[f][0]))

    def isptr(self, f):
        return self.off[f][1] == 8 and self.eng.m.ispointer(self.off[f][2])

    def entry(self, f):
        a = self.addr(f)
        return LD(a, self.off[f][1], 0, self.isptr(f), self.eng.m.pointee(self.off[f][2]))

    def now(self, st, f):
        return self.eng.load(st, self.addr(f), self.off[f][1], self.isptr(f))

    def field(self, addr):
        d = X.sub(addr, self.p)
        if X.isk(d):
            f = self.eng.m.field_at(self.sname, d.a)
            return f[0] if f else None
        return None


def minus1(e):
    return X.isk(e) and e.a in (-1, 0xFFFFFFFF)


# ---------------------------------------------------------------- P16
class SearchNode(DBRule):
    """the search inside a page returns a record only if its key compared equal"""
    name = 'search-node'
    fork_cmp = True
    SLOT = None

    def begin(self, eng, st):
        self.buf, self.key = param(eng, 1), param(eng, 2)
        self.range = param(eng, 3)
        st.auto = None

    def on_call(self, eng, st, ev):
        if ev.kind != 'cmp' or ev.name != 'compareKey':
            return
        a, b = ev.args[:2]
        r = a if b is self.key else b if a is self.key else None
        self.count('key comparisons', ev.inst)
        if r is None:
            self.report(eng, ev.inst, 'the search compares %s with %s, not a record with the key' % (X.show(a), X.show(b)), st, 'cmp-args')
            return
        s = self.s
        d = X.sub(r, X.add(self.buf, s.entry('headerSize')))
        fake = X.add(X.add(s.slotaddr(0), s.entry('headerSize')), d)
        idx, rest = recidx(s, fake, 0)
        if not (X.isk(rest) and rest.a == 0):
            self.report(eng, ev.inst, 'the search compares the key with %s, which is not the key of a record' % X.show(r), st, 'cmp-where')
        st.auto = ('eq', idx) if ev.res.a == 0 else None

    def on_ret(self, eng, st, inst, val):
        if st.known(X.eq(self.range, K(0))) is False:
            return
        self.count('exits', inst)
        if st.auto is None:
            if val is None or not (minus1(val) or st.known(X.eq(X.tr(val, 32), K(-1))) is True):
                self.report(eng, inst, 'an exact search can return %s although the last record compared does not have the key' % X.show(val), st, 'ret-found')
        else:
            i = st.auto[1]
            if minus1(val) or not (val is i or st.eq(X.tr(val, 16), X.tr(i, 16)) or st.eq(val, i)):
                self.report(eng, inst, 'an exact search that met the key at record %s returns %s' % (X.show(i), X.show(val)), st, 'ret-index')


class Lookup(DBRule):
    """data and variable data returned by a lookup are those of a record found by the search"""
    name = 'lookup'
    NOINLINE = ANCHORS + ['embedDBSearchNode']
    PURE = ('embedDBSearchNode',)
    flags_needed = frozenset((F_VDATA,))

    def begin(self, eng, st):
        self.key, self.data = param(eng, 1), param(eng, 2)
        st.auto = ()

    def on_call(self, eng, st, ev):
        if ev.kind != 'fn' or ev.name != 'embedDBSearchNode':
            return None
        s = self.s
        self.count('page searches', ev.inst)
        buf, key, rng = ev.args[1:4]
        sl = s.slot_of(buf)
        if sl is None or not (X.isk(sl[1]) and sl[1].a == 0):
            self.report(eng, ev.inst, 'the search gets %s, which is not the start of a page buffer' % X.show(buf), st, 'search-buf')
            return None
        if key is not self.key:
            self.report(eng, ev.inst, 'the search is for %s, not for the key given' % X.show(key), st, 'search-key')
        if not (X.isk(rng) and rng.a == 0):
            self.report(eng, ev.inst, 'a lookup searches for a range instead of the exact key', st, 'search-range')
        n = sl[0]
        memo = items(st.auto).get('s%d' % n)
        sym = ev.res
        if memo == 'none':
            ev.res = K(-1)
            return None
        if memo is not None:
            ev.res = memo
            return None
        s2 = st.copy()
        s2.env[ev.inst.res] = K(-1)
        eng.note(s2, ev.inst, 'search of buffer %d finds nothing' % n)
        s2.auto = put(s2.auto, **{'s%d' % n: 'none'})
        sym.nn = True
        st.assume(X.eq(sym, K(-1)), False)
        eng.note(st, ev.inst, 'search of buffer %d finds the key' % n)
        st.auto = put(st.auto, **{'s%d' % n: sym})
        st.env[ev.inst.res] = sym
        return [st, s2]

    def touch(self, st, addr):
        sl = self.s.slot_of(addr)
        if sl is not None:
            st.auto = put(st.auto, **{'s%d' % sl[0]: None})

    def on_file(self, eng, st, ev):
        if ev.name == 'read':
            self.touch(st, ev.args[0])

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.touch(st, addr)

    def on_fill(self, eng, st, inst, dst, byte, n):
        self.touch(st, dst)

    def record_at(self, eng, st, inst, src, off, what):
        """src must be `off` bytes into a record that the search of its buffer found"""
        s = self.s
        sl = s.slot_of(src)
        if sl is None:
            self.report(eng, inst, 'the %s is taken from %s, not from a page buffer' % (what, X.show(src)), st, what + '-src')
            return False
        m = items(st.auto).get('s%d' % sl[0])
        idx, rest = recidx(s, src, sl[0])
        if m is None or m == 'none':
            self.report(eng, inst, 'the %s is taken from buffer %d although the key was not found there' % (what, sl[0]), st, what + '-notfound')
            return False
        if not st.eq(src, rec(s, sl[0], m, off)):
            self.report(eng, inst, 'the %s is taken from %s, which is not in the record that was found' % (what, X.show(src)), st, what + '-where')
            return False
        return True

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        if dst is self.data:
            self.count('data copies', inst)
            self.record_at(eng, st, inst, src, s.entry('keySize'), 'data')
            if n is not s.entry('dataSize'):
                self.report(eng, inst, '%s bytes of data are returned' % X.show(n), st, 'data-size')
            st.auto = put(st.auto, D=1)
            return
        if X.isk(n):
            self.on_load(eng, st, inst, src, n.a, None)
        sl = s.slot_of(dst)
        if sl is not None:
            so = s.slot_of(src)
            a = items(st.auto)
            if so is not None and so[1] is sl[1] and X.isk(so[1]) and so[1].a == 0 and n is s.entry('pageSize'):
                st.auto = put(st.auto, **{'s%d' % sl[0]: a.get('s%d' % so[0])})
            else:
                self.touch(st, dst)
        elif dst is self.key or X.root_of(dst) is self.key:
            self.report(eng, inst, 'the key given is overwritten', st, 'key-written')

    def on_load(self, eng, st, inst, addr, size, val):
        s = self.s
        if size == 4 and s.slot_of(addr) is not None and s.entry('dataSize') in X.terms(X.sub(addr, s.buf()))[1]:
            self.count('variable data pointers read', inst)
            self.record_at(eng, st, inst, addr, X.add(s.entry('keySize'), s.entry('dataSize')), 'variable data pointer')
            st.auto = put(st.auto, P=1)

    def on_ret(self, eng, st, inst, val):
        if val is None:
            return
        z = st.known(X.eq(val, K(0)))
        a = items(st.auto)
        found = any(k[0] == 's' and v not in ('none', None) for k, v in a.items())
        if z is not False:
            self.count('success exits', inst)
            if 'D' not in a:
                self.report(eng, inst, '%s can return success although no data was copied' % eng.fn.name, st, 'ret-nodata')
            if eng.fn.name == 'embedDBGetVar' and 'P' not in a:
                self.report(eng, inst, '%s can return success although the variable data pointer was not read' % eng.fn.name, st, 'ret-noptr')
        elif eng.fn.name == 'embedDBGet' and found:
            self.report(eng, inst, '%s reports failure although the search found the key' % eng.fn.name, st, 'ret-notfound')


# ---------------------------------------------------------------- P17, P18, P19
BOUNDS = {'minKey': ('compareKey', -1), 'maxKey': ('compareKey', 1), 'minData': ('compareData', -1), 'maxData': ('compareData', 1)}


class Iterate(DBRule):
    """what an iterator returns, skips and ends on"""
    name = 'iterate'
    NOINLINE = ANCHORS + ['bitmapOverlap']
    PURE = ('bitmapOverlap',)
    fork_cmp = True
    keys = None
    track = None

    def put(self, auto, **kw):
        if self.track is not None:
            kw = {k: v for k, v in kw.items() if k in self.track}
        return put(auto, **kw)

    def report(self, eng, inst, msg, st, key=None):
        if self.keys is None or key.split(':')[0] in self.keys:
            DBRule.report(self, eng, inst, msg, st, key)

    def begin(self, eng, st):
        self.it = V.of(eng, 'embedDBIterator')
        self.key, self.data = param(eng, 2), param(eng, 3)
        st.auto = ()

    # auto: r=('rec', slot, idx) current record; d=1 data copied; b=(names of bounds passed); rej=1 failed a bound;
    #       inc=1 nextDataRec advanced for it; end=1 above maxKey; fail=1 storage failed; skip=1 bitmap excludes the page
    def preds(self, eng, st):
        return self.pagepreds(eng, st) + self.indexpreds(eng, st)

    def pagepreds(self, eng, st):
        s, it = self.s, self.it
        p, nx = it.now(st, 'nextDataPage'), s.now(st, 'nextDataPageId')
        return (X.eq(p, nx), X.ltu(nx, p), X.eq(s.now(st, 'bufferedPageId'), X.binop('urem', p, s.entry('numDataPages'), 32)))

    def indexpreds(self, eng, st):
        s, it = self.s, self.it
        p = it.now(st, 'nextDataPage')
        ip = X.binop('udiv', p, s.entry('maxIdxRecordsPerPage'), 32)
        return (X.eq(s.now(st, 'bufferedIndexPageId'), X.binop('urem', ip, s.entry('numIndexPages'), 32)),
                X.ltu(X.binop('sub', p, eng.load(st, s.slotaddr(3, 8), 4), 32), eng.load(st, s.slotaddr(3, 4), 2)),
                X.ltu(ip, s.entry('minIndexPageId')), X.ltu(ip, s.entry('nextIdxPageId')))

    def pagebuf(self, st):
        """slot that holds the page it->nextDataPage: 1 read buffer, 0 write buffer, None unknown"""
        s, it = self.s, self.it
        p = it.now(st, 'nextDataPage')
        if st.known(X.eq(p, s.now(st, 'nextDataPageId'))) is True:
            return 0
        if st.eq(s.now(st, 'bufferedPageId'), X.binop('urem', p, s.entry('numDataPages'), 32)):
            return 1
        return None

    def at(self, st, addr, a, off):
        """is addr the given offset of the current record?"""
        s = self.s
        idx, rest = recidx(s, addr, a['r'])
        cur = self.it.now(st, 'nextDataRec')
        if 'inc' in a:
            cur = X.sub(cur, K(1))
        return st.eq(X.tr(idx, 32), X.tr(cur, 32)) and st.eq(rest, off if off is not None else K(0))

    def on_copy(self, eng, st, inst, dst, src, n):
        s, it = self.s, self.it
        if dst is self.key:
            a = items(st.auto)
            self.count('key copies', inst)
            if 'z' in a:
                self.report(eng, inst, 'the iterator starts a page again', st, 'again')
            if 'r' in a and 'rej' not in a:
                self.report(eng, inst, 'the iterator goes on to another record although the previous one failed no bound', st, 'skipped')
            if 'r' in a and 'inc' not in a:
                self.report(eng, inst, 'the iterator reads the next record without having moved past the previous one', st, 'again')
            sl = s.slot_of(src)
            if sl is None:
                self.report(eng, inst, 'the key is taken from %s, not from a page buffer' % X.show(src), st, 'key-src')
                return
            idx, rest = recidx(s, src, sl[0])
            if not (X.isk(rest) and rest.a == 0):
                self.report(eng, inst, 'the key is taken from %s, which is not the key of a record' % X.show(src), st, 'key-where')
            if n is not s.entry('keySize'):
                self.report(eng, inst, '%s bytes of key are returned' % X.show(n), st, 'key-size')
            nr = it.now(st, 'nextDataRec')
            pend = a.get('pinc')
            if not st.eq(X.tr(idx, 32), X.tr(X.sub(nr, K(1)) if pend else nr, 32)):
                self.report(eng, inst, 'the iterator reads record %s when %s is next' % (X.show(idx), X.show(nr)), st, 'which')
            pb = self.pagebuf(st)
            if pb != sl[0]:
                self.report(eng, inst, 'the iterator reads a record from buffer %d, which need not hold the page it is on' % sl[0], st, 'page')
            if st.known(X.ltu(idx, s.count(st, sl[0]))) is not True:
                self.report(eng, inst, 'the iterator reads record %s, which may be behind the last record of the page' % X.show(idx), st, 'count')
            st.auto = self.put((), r=sl[0], inc=pend)
        elif dst is self.data:
            a = items(st.auto)
            sl = s.slot_of(src)
            if sl is None:
                self.report(eng, inst, 'the data is taken from %s, not from a page buffer' % X.show(src), st, 'data-src')
                return
            if n is not s.entry('dataSize'):
                self.report(eng, inst, '%s bytes of data are returned' % X.show(n), st, 'data-size')
            r = a.get('r')
            if r is None or r != sl[0] or not self.at(st, src, a, s.entry('keySize')):
                self.report(eng, inst, 'the data is taken from %s, not from the record the key is from' % X.show(src), st, 'data-where')
            st.auto = self.put(st.auto, d=1)

    def bound(self, st, e):
        for b in BOUNDS:
            if e is self.it.entry(b):
                return b
        return None

    def on_call(self, eng, st, ev):
        s = self.s
        if ev.kind == 'cmp':
            x, y = ev.args[:2]
            v = ev.res.a
            b = self.bound(st, y)
            if b is None:
                b, x, y, v = self.bound(st, x), y, x, -v
            if b is None:
                return None
            self.count('bound comparisons', ev.inst)
            a = items(st.auto)
            r = a.get('r')
            want, off = ((self.key, None) if b.endswith('Key') else (self.data, s.entry('keySize')))
            if ev.name != BOUNDS[b][0]:
                self.report(eng, ev.inst, '%s is compared with %s' % (b, ev.name), st, 'cmp-kind')
            ok = x is want and (b.endswith('Key') or 'd' in a) or r is not None and self.at(st, x, a, off)
            if not ok or r is None:
                self.report(eng, ev.inst, '%s is compared with %s, not with the current record' % (b, X.show(x)), st, 'cmp-what')
                return None
            if v == BOUNDS[b][1]:
                st.auto = self.put(st.auto, rej=1, end=1 if b == 'maxKey' else a.get('end'), b=None)
            else:
                st.auto = self.put(st.auto, b=tuple(sorted(set(a.get('b', ())) | {b})))
            return None
        if ev.kind == 'fn' and ev.name == 'bitmapOverlap':
            self.count('bitmap tests', ev.inst)
            q, bm, n = ev.args[:3]
            it = self.it
            p = it.now(st, 'nextDataPage')
            if bm is it.entry('queryBitmap'):
                q, bm = bm, q
            if q is not it.entry('queryBitmap'):
                self.report(eng, ev.inst, 'the bitmap of the query is not used to decide whether the page can be skipped', st, 'bm-query')
            if not st.eq(X.tr(n, 8), X.tr(s.entry('bitmapSize'), 8)):
                self.report(eng, ev.inst, 'bitmaps are compared with size %s' % X.show(n), st, 'bm-size')
            first = eng.load(st, s.slotaddr(3, 8), 4)
            ir = X.binop('sub', p, first, 32)
            want = X.add(s.slotaddr(3, 16), X.mul(ir, s.entry('bitmapSize')))
            if not st.eq(bm, want):
                self.report(eng, ev.inst, 'the bitmap compared is at %s, which is not the entry of the page on the index page' % X.show(bm), st, 'bm-entry')
            if st.known(X.ltu(ir, eng.load(st, s.slotaddr(3, 4), 2))) is not True:
                self.report(eng, ev.inst, 'the bitmap compared may be behind the last entry of the index page', st, 'bm-count')
            ip = X.binop('udiv', p, s.entry('maxIdxRecordsPerPage'), 32)
            if not st.eq(s.now(st, 'bufferedIndexPageId'), X.binop('urem', ip, s.entry('numIndexPages'), 32)):
                self.report(eng, ev.inst, 'the index page in the buffer need not be the one for the page', st, 'bm-page')
            if st.known(X.ltu(ip, s.entry('minIndexPageId'))) is not False or st.known(X.ltu(ip, s.entry('nextIdxPageId'))) is not True:
                self.report(eng, ev.inst, 'the index page used may have been overwritten or not yet written', st, 'bm-valid')
            s2 = st.copy()
            s2.env[ev.inst.res] = K(0)
            eng.note(s2, ev.inst, 'bitmaps do not overlap')
            s2.auto = self.put(s2.auto, skip=1)
            ev.res = K(1)
            eng.note(st, ev.inst, 'bitmaps overlap')
            return [st, s2]
        return None

    def on_file(self, eng, st, ev):
        if ev.res.a == 0:
            st.auto = self.put(st.auto, fail=1)

    def on_store(self, eng, st, inst, addr, size, val, old):
        s, it = self.s, self.it
        f = it.field(addr)
        if f is None:
            return
        a = items(st.auto)
        if f == 'nextDataRec':
            o = old if old is not None else it.entry(f)
            if X.isk(val) and val.a == 0:
                if 'adv' in a:
                    st.auto = self.put(st.auto, adv=None)
                elif st.known(X.eq(o, K(0))) is not True:
                    # the page step follows
                    st.auto = self.put(st.auto, z='done' if self.exhausted(st, it.now(st, 'nextDataPage'), o) else 'early')
                return
            self.count('record steps', inst)
            if not st.eq(val, X.add(o, K(1))):
                self.report(eng, inst, 'the iterator moves from record %s to %s' % (X.show(o), X.show(val)), st, 'step')
            if 'r' in a and 'inc' not in a:
                st.auto = self.put(st.auto, inc=1)
            elif 'r' in a and 'rej' not in a or 'pinc' in a:
                self.report(eng, inst, 'the iterator skips a record', st, 'skipped')
            else:
                st.auto = self.put(st.auto, pinc=1)
        elif f == 'nextDataPage':
            self.count('page steps', inst)
            o = old if old is not None else it.entry(f)
            if not st.eq(val, X.add(o, K(1))):
                self.report(eng, inst, 'the iterator moves from page %s to %s' % (X.show(o), X.show(val)), st, 'pagestep')
            if 'skip' in a:
                if st.known(X.eq(it.now(st, 'nextDataRec'), K(0))) is not True:
                    self.report(eng, inst, 'the iterator skips the rest of a page it has begun to read', st, 'pagestep-rest')
                st.auto = self.put((), fail=a.get('fail'))
                return
            if 'r' in a and 'rej' not in a:
                self.report(eng, inst, 'the iterator goes on to the next page although the last record failed no bound', st, 'skipped')
            if 'r' in a and 'inc' not in a and 'z' not in a:
                self.report(eng, inst, 'the iterator leaves a page before moving past its last record', st, 'pagestep-early')
            if a['z'] != 'done' if 'z' in a else not self.exhausted(st, o, it.now(st, 'nextDataRec')):
                self.report(eng, inst, 'the iterator leaves a page that may have more records', st, 'pagestep-early')
            st.auto = self.put((), fail=a.get('fail'), adv=None if 'z' in a else 1)

    def exhausted(self, st, p, nr):
        """is record nr known to be behind the last record of page p?"""
        return any(self.prevpage(st, p, n) and st.known(X.ltu(nr, self.s.count(st, n))) is False for n in (0, 1))

    def prevpage(self, st, p, n):
        s = self.s
        if n == 0:
            return st.known(X.eq(p, s.now(st, 'nextDataPageId'))) is True
        return st.eq(s.now(st, 'bufferedPageId'), X.binop('urem', p, s.entry('numDataPages'), 32))

    def on_ret(self, eng, st, inst, val):
        s, it = self.s, self.it
        a = items(st.auto)
        z = st.known(X.eq(val, K(0)))
        if 'z' in a:
            self.report(eng, inst, 'the iterator starts a page again', st, 'again')
        if 'adv' in a:
            self.report(eng, inst, 'the iterator moved to a new page without starting at its first record', st, 'notreset')
        if z is not False:
            self.count('end exits', inst)
            if 'end' in a or 'fail' in a:
                return
            if st.known(X.ltu(s.now(st, 'nextDataPageId'), it.now(st, 'nextDataPage'))) is not True:
                self.report(eng, inst, 'the iterator can report the end before the last page, without a failure or a key above the largest wanted', st, 'end')
            return
        self.count('record exits', inst)
        if 'r' not in a or 'd' not in a:
            self.report(eng, inst, 'the iterator returns without having copied a record', st, 'nocopy')
            return
        if 'rej' in a:
            self.report(eng, inst, 'the iterator returns a record that failed a bound', st, 'nomatch')
        for b in BOUNDS:
            if b not in a.get('b', ()) and st.known(X.eq(it.entry(b), K(0))) is not True:
                self.report(eng, inst, 'the iterator returns a record that was not compared with %s' % b, st, 'unchecked:' + b)
        if 'inc' not in a:
            self.report(eng, inst, 'the iterator returns a record without moving past it', st, 'again')


class IterMatch(Iterate):
    """an iterator returns only matching records, with their own key and data"""
    name = 'iterator-match'
    keys = {'nomatch', 'unchecked', 'nocopy', 'cmp-kind', 'cmp-what', 'key-src', 'key-where', 'key-size', 'data-src', 'data-size', 'data-where',
            'page', 'count'}
    track = {'r', 'd', 'b', 'rej', 'inc', 'pinc'}
    preds = Iterate.pagepreds


class IterBitmap(Iterate):
    """a page is skipped only because the bitmap of that very page excludes it"""
    name = 'iterator-bitmap'
    keys = {'bm-query', 'bm-size', 'bm-entry', 'bm-count', 'bm-page', 'bm-valid', 'pagestep-rest'}
    track = {'skip', 'adv'}
    preds = Iterate.preds


class IterComplete(Iterate):
    """an iterator skips nothing and returns nothing twice"""
    name = 'iterator-complete'
    keys = {'skipped', 'again', 'which', 'step', 'pagestep', 'pagestep-early', 'notreset', 'end', 'pagestep-rest'}
    track = {'r', 'd', 'rej', 'inc', 'pinc', 'end', 'fail', 'skip', 'adv', 'z'}
    preds = Iterate.pagepreds


class IterInit(DBRule):
    """where a new iterator starts"""
    name = 'iterator-init'
    valuekeys = True
    fork_malloc = True
    flags_needed = frozenset((F_BMAP, F_BIN))

    def begin(self, eng, st):
        self.it = V.of(eng, 'embedDBIterator')
        st.auto = ()

    def on_call(self, eng, st, ev):
        it, s = self.it, self.s
        if ev.kind == 'fn' and ev.name in ('calloc', 'malloc'):
            n = ev.args[0] if ev.name == 'malloc' else X.mul(ev.args[0], ev.args[1])
            if X.isk(ev.res) and ev.res.a == 0:
                return
            if not st.eq(n, s.entry('bitmapSize')):
                self.report(eng, ev.inst, 'the bitmap of the query gets %s bytes' % X.show(n), st, 'bm-alloc')
            st.auto = put(st.auto, o=ev.res, zero=1 if ev.name == 'calloc' else None)
        elif ev.kind == 'slot' and ev.name == 'buildBitmapFromRange':
            self.count('bitmap builds', ev.inst)
            a = items(st.auto)
            if ev.args[0] is not it.entry('minData') or ev.args[1] is not it.entry('maxData'):
                self.report(eng, ev.inst, 'the bitmap of the query is built from (%s, %s)' % (X.show(ev.args[0]), X.show(ev.args[1])), st, 'bm-range')
            if ev.args[2] is not a.get('o') or 'zero' not in a:
                self.report(eng, ev.inst, 'the bitmap of the query is built in memory that was not cleared', st, 'bm-dst')
            st.auto = put(st.auto, built=1)
        elif ev.kind == 'fn' and ev.name == 'splineFind':
            self.count('spline searches', ev.inst)
            if ev.args[1] is not it.entry('minKey'):
                self.report(eng, ev.inst, 'the first page is searched for %s, not for the smallest key' % X.show(ev.args[1]), st, 'find-key')
            if st.known(X.eq(it.entry('minKey'), K(0))) is not False:
                self.report(eng, ev.inst, 'the first page is searched without a smallest key', st, 'find-null')
            st.auto = put(st.auto, lo=eng.load(st, ev.args[4], 4))

    def on_fill(self, eng, st, inst, dst, byte, n):
        a = items(st.auto)
        if dst is a.get('o') and X.isk(byte) and byte.a == 0 and st.eq(n, self.s.entry('bitmapSize')):
            st.auto = put(st.auto, zero=1)

    def on_ret(self, eng, st, inst, val):
        it, s = self.it, self.s
        a = items(st.auto)
        self.count('exits', inst)
        p, r, q = it.now(st, 'nextDataPage'), it.now(st, 'nextDataRec'), it.now(st, 'queryBitmap')
        if not (X.isk(r) and r.a == 0):
            self.report(eng, inst, 'a new iterator starts at record %s' % X.show(r), st, 'start-rec')
        m = s.entry('minDataPageId')
        lo = a.get('lo')
        if not (st.eq(p, m) or lo is not None and (st.eq(p, lo) and st.known(X.ltu(p, m)) is False)):
            self.report(eng, inst, 'a new iterator starts at page %s' % X.show(p), st, 'start-page')
        if lo is not None and st.eq(p, m) and st.known(X.ltu(m, lo)) is True:
            pass
        if X.isk(q) and q.a == 0:
            return
        if q is not a.get('o') or 'built' not in a:
            self.report(eng, inst, 'a new iterator can have the bitmap %s, which was not built' % X.show(q), st, 'bm-set')
        if s.flag(st, F_BMAP) is not True:
            self.report(eng, inst, 'a new iterator gets a bitmap although the database has none', st, 'bm-flag')


# ---------------------------------------------------------------- P20
STATS = {'numReads', 'numWrites', 'bufferHits', 'numIdxReads', 'numIdxWrites'}
CACHES = {'bufferedPageId', 'bufferedIndexPageId', 'bufferedVarPage'}
VARSTATE = {'currentVarLoc', 'nextVarPageId', 'numAvailVarPages', 'minVarRecordId'}


class ReadOnly(DBRule):
    """reading changes nothing but caches and statistics"""
    name = 'read-only'
    flags_needed = frozenset((F_INDEX, F_VDATA))
    VAR = {'embedDBGetVar', 'embedDBNextVar'}

    def begin(self, eng, st):
        self.v = eng.fn.name in self.VAR
        st.auto = ()

    def on_file(self, eng, st, ev):
        self.count('storage operations', ev.inst)
        f = ev.info['file']
        if ev.name in ('read', 'flush'):
            return
        if self.v and f == 'varFile':
            return
        self.report(eng, ev.inst, '%s performs a %s of %s' % (eng.fn.name, ev.name, f), st, 'file:%s:%s' % (ev.name, f))

    def area(self, eng, st, inst, addr, whole=False):
        s = self.s
        sl = s.slot_of(addr)
        if sl is not None:
            self.count('page buffer writes', inst)
            n = sl[0]
            if n % 2 == 1:
                return          # read buffers have odd numbers
            if self.v and (n == 4 or n == 2 and s.flag(st, F_INDEX) is False):
                return
            self.report(eng, inst, '%s changes write buffer %d' % (eng.fn.name, n), st, 'buf%d' % n)
            return
        f = s.field(addr)
        if f is None:
            return
        self.count('state updates', inst)
        if f in STATS or f in CACHES or self.v and f in VARSTATE:
            return
        self.report(eng, inst, '%s changes %s' % (eng.fn.name, f), st, 'field:' + f)

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.area(eng, st, inst, addr)

    def on_copy(self, eng, st, inst, dst, src, n):
        self.area(eng, st, inst, dst)

    def on_fill(self, eng, st, inst, dst, byte, n):
        self.area(eng, st, inst, dst)


# ---------------------------------------------------------------- P21, P22
class VarRef(DBRule):
    """variable data handed out is the one the record refers to, and only while it exists"""
    name = 'var-reference'
    valuekeys = 'phis'
    fork_cmp = True
    fork_malloc = True
    flags_needed = frozenset((F_INDEX,))
    NOINLINE = ANCHORS + ['embedDBSearchNode']
    PURE = ('embedDBSearchNode',)
    keys = None

    def report(self, eng, inst, msg, st, key=None):
        if self.keys is None or key in self.keys:
            DBRule.report(self, eng, inst, msg, st, key)

    def begin(self, eng, st):
        self.out = eng.params[-1]
        st.auto = ()

    def vslot(self, st):
        i = self.s.flag(st, F_INDEX)
        return {5} if i else {3} if i is False else {3, 5}

    def on_load(self, eng, st, inst, addr, size, val):
        s = self.s
        sl = s.slot_of(addr)
        if size != 4 or sl is None or X.isk(sl[1]):
            return
        a = items(st.auto)
        d = X.terms(X.sub(addr, s.buf()))[1]
        if s.entry('dataSize') in d:
            st.auto = put(st.auto, v=val)
            self.count('variable data pointers read', inst)
        elif sl[0] in self.vslot(st) and 'v' in a:
            v = a['v']
            P, N = s.entry('pageSize'), s.entry('numVarPages')
            self.count('lengths read', inst)
            if not st.eq(sl[1], X.binop('urem', v, P, 32)):
                self.report(eng, inst, 'the length of the variable data is read at offset %s of the page' % X.show(sl[1]), st, 'len-where')
            if not st.eq(s.now(st, 'bufferedVarPage'), X.binop('urem', X.binop('udiv', v, P, 32), N, 32)):
                self.report(eng, inst, 'the length of the variable data may be read from another page', st, 'len-page')
            st.auto = put(st.auto, l=val)

    def on_copy(self, eng, st, inst, dst, src, n):
        if X.isk(n):
            self.on_load(eng, st, inst, src, n.a, eng.load(st, src, n.a))

    def on_assume(self, eng, st, inst):
        a = items(st.auto)
        if 'v' in a and 'n' not in a:
            k = st.known(X.eq(a['v'], K(-1))), st.known(X.eq(a['v'], K(0xFFFFFFFF)))
            if True in k or False in k:
                st.auto = put(st.auto, n=int(True in k))

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        a = items(st.auto)
        o = a.get('obj')
        if o is None or 'v' not in a or eng.split(addr)[0] is not o:
            return
        d = X.sub(addr, o)
        f = eng.m.field_at('embedDBVarDataStream', d.a) if X.isk(d) else None
        if not f or f[0] not in ('dataStart', 'fileOffset'):
            return
        self.count('stream positions set', inst)
        v, P = a['v'], s.entry('pageSize')
        NP = X.mul(s.entry('numVarPages'), P)
        q = X.binop('urem', X.add(v, K(4)), NP, 32)
        z = st.known(X.eq(X.binop('urem', q, P, 32), K(0)))
        hdr = X.binop('urem', X.add(q, s.entry('variableDataHeaderSize')), NP, 32)
        if not (z is False and st.eq(val, q) or z is True and st.eq(val, hdr)):
            self.report(eng, inst, 'the stream starts at %s' % X.show(val), st, 'start')
        st.auto = put(st.auto, set=tuple(sorted(set(a.get('set', ())) | {f[0]})))

    def on_call(self, eng, st, ev):
        s = self.s
        if ev.kind == 'cmp' and ev.name == 'compareKey':
            m = s.addr('minVarRecordId')
            x, y, v = ev.args[0], ev.args[1], ev.res.a
            if x is m:
                x, y, v = y, x, -v
            if y is m:
                self.count('comparisons with the first key with data', ev.inst)
                if x is not self.keyparam(eng):
                    self.report(eng, ev.inst, 'the first key with variable data is compared with %s' % X.show(x), st, 'old-key')
                st.auto = put(st.auto, o=v)
        elif ev.kind == 'fn' and ev.name == 'malloc' and not X.isk(ev.res):
            st.auto = put(st.auto, obj=ev.res)
            X.hint(ev.res, 'embedDBVarDataStream')

    def keyparam(self, eng):
        return eng.params[1 if eng.fn.name == 'embedDBGetVar' else 2]

    def on_ret(self, eng, st, inst, val):
        s = self.s
        a = items(st.auto)
        get = eng.fn.name == 'embedDBGetVar'
        k = st.known(X.eq(val, K(0)))
        k1 = st.known(X.eq(val, K(1)))
        good = k is not False if get else k is not True
        gone = k1 is not False if get else False
        if not (good or gone):
            return
        self.count('success exits', inst)
        rep = lambda m, key: self.report(eng, inst, '%s %s' % (eng.fn.name, m), st, key)
        out = eng.load(st, self.out, 8, True)
        v = a.get('v')
        none = {0: False, 1: True}.get(a.get('n'))
        if v is None:
            rep('returns success without having read the reference to the variable data', 'noref')
            return
        if X.isk(out) and out.a == 0:
            if none is True:
                if k is False and get:
                    rep('reports variable data as overwritten although the record has none', 'status')
                return
            if a.get('o') == -1:
                if get and k1 is not True:
                    rep('returns success although the variable data was overwritten', 'status')
                return
            rep('returns no variable data although the record refers to some that exists', 'dropped')
            return
        if k1 is True and get:
            rep('reports variable data as overwritten although it exists', 'status')
        if none is not False:
            rep('returns variable data for a record that has none', 'none')
        if a.get('o') not in (0, 1):
            rep('returns variable data that may have been overwritten', 'overwritten')
        if out is not a.get('obj'):
            rep('returns the stream %s' % X.show(out), 'stream')
            return
        f = eng.m.fields.get('embedDBVarDataStream')
        if not f:
            raise Broken('struct embedDBVarDataStream not found')
        off = {x[0]: (o, x[1]) for o, x in f.items()}
        get_ = lambda n: eng.load(st, X.add(out, K(off[n][0])), off[n][1])
        for n in ('dataStart', 'fileOffset'):
            if n not in a.get('set', ()):
                rep('returns a stream without setting its %s' % n, 'start')
        if not ('l' in a and st.eq(get_('totalBytes'), a['l'])):
            rep('returns a stream with length %s' % X.show(get_('totalBytes')), 'total')
        b = get_('bytesRead')
        if not (X.isk(b) and b.a == 0):
            rep('returns a stream that has %s bytes read' % X.show(b), 'begin')


class VarStreamStart(VarRef):
    """the stream starts at the data the record refers to"""
    name = 'stream-start'
    keys = {'len-where', 'len-page', 'start', 'total', 'begin', 'stream'}


class VarLive(VarRef):
    """variable data is handed out exactly while it exists"""
    name = 'var-live'
    keys = {'noref', 'status', 'dropped', 'none', 'overwritten', 'old-key'}


class VarSource(VarRef):
    """the reference to variable data is taken from the record that was returned, once its data is on storage"""
    name = 'var-source'
    valuekeys = None
    fork_cmp = False
    fork_malloc = False
    notrunc = True

    def begin(self, eng, st):
        VarRef.begin(self, eng, st)
        self.it = V.of(eng, 'embedDBIterator') if eng.fn.name == 'embedDBNextVar' else None

    def preds(self, eng, st):
        if not self.it:
            return []
        a, b = self.it.now(st, 'nextDataPage'), self.s.now(st, 'nextDataPageId')
        return [X.eq(a, b), X.ltu(b, a), X.eq(eng.load(st, X.add(self.s.buf(), K(4)), 2), K(0))]

    def partkey(self, eng, st):
        return tuple(saturate(st, p) for p in self.preds(eng, st)[:2])

    def record(self, st, r):
        s = self.s
        return X.add(X.add(s.entry('headerSize'), s.entry('keySize')), X.mul(s.entry('recordSize'), r))

    def on_load(self, eng, st, inst, addr, size, val):
        s = self.s
        sl = s.slot_of(addr)
        if size != 4 or sl is None or X.isk(sl[1]):
            return
        a = items(st.auto)
        if s.entry('dataSize') in X.terms(X.sub(addr, s.buf()))[1]:
            self.count('variable data pointers read', inst)
            w = a.get('src')
            if w is None:
                self.report(eng, inst, 'the reference to variable data is read from a record that was not looked up', st, 'no-record')
            elif w == 0 and sl[0] == 1 and 'cp' not in a or w == 1 and (sl[0] != 1 or 'cp' in a or 'mv' in a):
                self.report(eng, inst, 'the reference to variable data is read from another page than the record', st, 'which-page')
            else:
                pos = eng.ghost(st, 'pos')
                if 'd' in a:
                    pos = self.record(st, X.sub(self.it.now(st, 'nextDataRec'), K(a['d'])))
                if not st.eq(sl[1], X.add(pos, s.entry('dataSize'))):
                    self.report(eng, inst, 'the reference to variable data is read at %s, the data of the record is at %s' % (X.show(sl[1]), X.show(pos)), st, 'which-record')
            st.auto = put(st.auto, v=1)
        elif sl[0] in self.vslot(st) and 'v' in a and a.get('src') == 0:
            self.count('lengths read of buffered records', inst)
            if 'vf' not in a:
                self.report(eng, inst, 'the variable data of a buffered record is read from storage without having been written', st, 'unwritten')

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        r = eng.split(dst)[0]
        a, b = s.slot_of(src), s.slot_of(dst)
        if r in eng.params and a is not None and a[0] in (0, 1) and n is s.entry('dataSize'):
            eng.ghost(st, 'pos', a[1])
            d = None
            if self.it:
                # kept as the distance to the position of the iterator
                r = self.it.now(st, 'nextDataRec')
                n = eng.load(st, X.add(self.s.buf(), K(4)), 2)
                if a[0] == 0 and saturate(st, X.ltu(r, n)) is True:
                    st.assume(X.eq(n, K(0)), False)         # there is a record
                d = next((k for k in (0, 1) if st.eq(a[1], self.record(st, X.sub(r, K(k))))), None)
            st.auto = put(st.auto, src=a[0], cp=None, mv=None, d=d)
        elif b is not None and b[0] == 1 and a is not None and a[0] == 0 and n is s.entry('pageSize'):
            st.auto = put(st.auto, cp=1)
            eng.ghost(st, 'search1', K(-7))
        if X.isk(n):
            self.on_load(eng, st, inst, src, n.a, eng.load(st, src, n.a))

    def on_assume(self, eng, st, inst):
        s = self.s
        r = eng.ghost(st, 'search0')
        if r is not None and 's0' not in items(st.auto) and True in (st.known(X.eq(r, K(-1))), st.known(X.eq(r, K(0xFFFFFFFF)))):
            st.auto = put(st.auto, s0=1)        # not in the write buffer
        if 'vf' not in items(st.auto) and st.known(X.eq(X.binop('urem', s.now(st, 'currentVarLoc'), s.entry('pageSize'), 32), s.entry('variableDataHeaderSize'))) is True:
            st.auto = put(st.auto, vf=1)        # nothing to write

    def on_store(self, eng, st, inst, addr, size, val, old):
        a = items(st.auto)
        if self.it and 'd' in a and self.it.field(addr) == 'nextDataRec':
            d = X.sub(val, old if old is not None else self.it.entry('nextDataRec'))
            st.auto = put(st.auto, d=a['d'] + d.a if X.isk(d) and abs(a['d'] + d.a) < 3 else None)

    def on_call(self, eng, st, ev):
        # the same search of the same page has the same result
        if ev.kind == 'fn' and ev.name == 'embedDBSearchNode':
            sl = self.s.slot_of(ev.args[1])
            if sl is not None and X.isk(sl[1]) and sl[0] in (0, 1):
                g = 'search%d' % sl[0]
                if sl[0] == 0 and 's0' in items(st.auto):
                    ev.res = K(-1)
                    return
                old = eng.ghost(st, g)
                if old is not None and not (X.isk(old) and old.a == -7):
                    ev.res = old
                else:
                    eng.ghost(st, g, ev.res)

    def on_ret(self, eng, st, inst, val):
        pass

    def on_file(self, eng, st, ev):
        if ev.res.a != 1:
            return
        if ev.name == 'write' and ev.info['file'] == 'varFile':
            st.auto = put(st.auto, vf=1)
        elif ev.name == 'read' and ev.info['file'] == 'dataFile':
            eng.ghost(st, 'search1', K(-7))
        if ev.name == 'read' and ev.info['file'] == 'dataFile' and 'src' in items(st.auto):
            st.auto = put(st.auto, mv=1)


class StreamRead(DBRule):
    """reading a stream stays inside the data, the page and the caller's buffer"""
    name = 'stream-read'
    valuekeys = 'phis'
    linrel = True
    flags_needed = frozenset((F_INDEX,))

    def begin(self, eng, st):
        self.v = V.of(eng, 'embedDBVarDataStream')
        self.buf, self.len = param(eng, 2), param(eng, 3)
        eng.ghost(st, 'done', K(0))
        st.auto = ()

    def lims(self, eng, st):
        s, v = self.s, self.v
        P, fo = s.entry('pageSize'), v.now(st, 'fileOffset')
        return (('the buffer of the caller', X.sub(self.len, eng.ghost(st, 'done'))),
                ('the data of the record', X.sub(v.entry('totalBytes'), v.now(st, 'bytesRead'))),
                ('the page', X.sub(P, X.binop('urem', fo, P, 32))))

    def nextpage(self, eng, st):
        return X.binop('urem', X.add(eng.ghost(st, 'page'), K(1)), self.s.entry('numVarPages'), 32)

    def preds(self, eng, st):
        l = [e for _, e in self.lims(eng, st)]
        out = [X.ltu(x, y) for x in l for y in l if x is not y]
        out += [X.ltu(eng.ghost(st, 'done'), self.len), X.ltu(self.v.now(st, 'bytesRead'), self.v.entry('totalBytes'))]
        out += [X.eq(X.binop('urem', self.v.entry('fileOffset'), self.s.entry('pageSize'), 32), K(0))]
        if 'next' in items(st.auto):
            out.append(X.eq(self.s.now(st, 'bufferedVarPage'), self.nextpage(eng, st)))
        for p in out:
            saturate(st, p)
        return out

    def on_copy(self, eng, st, inst, dst, src, n):
        s, v = self.s, self.v
        r, off = eng.split(dst)
        if r is not self.buf:
            return
        self.count('copies', inst)
        rep = lambda m, k: self.report(eng, inst, m, st, k)
        a = items(st.auto)
        done = eng.ghost(st, 'done')
        P, N, H = s.entry('pageSize'), s.entry('numVarPages'), s.entry('variableDataHeaderSize')
        fo, br = v.now(st, 'fileOffset'), v.now(st, 'bytesRead')
        if 'n' in a:
            rep('more variable data is copied before the stream was advanced', 'order')
        if not st.eq(off, done):
            rep('variable data is copied to offset %s of the buffer' % X.show(off), 'dst')
        sl = s.slot_of(src)
        i = s.flag(st, F_INDEX)
        if sl is None or sl[0] not in (({5} if i else {3} if i is False else {3, 5})) or not st.eq(sl[1], X.binop('urem', fo, P, 32)):
            rep('variable data is copied from %s' % X.show(src), 'src')
        for what, lim in self.lims(eng, st):
            if saturate(st, X.ltu(lim, n)) is not False and saturate(st, X.lts(lim, n)) is not False:
                rep('%s bytes of variable data may be copied, more than %s has left' % (X.show(n), what), 'bound:' + what.split()[1])
        pg = s.now(st, 'bufferedVarPage')
        if 'next' in a:
            want = self.nextpage(eng, st)
            z = 'hdr' in a
            if not z:
                rep('variable data is copied from the header of a page', 'header')
        else:
            want = X.binop('urem', X.binop('udiv', fo, P, 32), N, 32)
            if 'hdr' not in a and st.known(X.eq(X.binop('urem', v.entry('fileOffset'), P, 32), K(0))) is not False:
                rep('variable data may be copied from the header of a page', 'header')
        if not st.eq(pg, want):
            rep('variable data is copied from page %s' % X.show(pg), 'page')
        eng.ghost(st, 'done', X.add(done, n))
        eng.ghost(st, 'page', pg)
        st.auto = put((), n=n)

    def on_store(self, eng, st, inst, addr, size, val, old):
        s, v = self.s, self.v
        f = v.field(addr)
        if f is None:
            return
        a = items(st.auto)
        self.count('stream updates', inst)
        o = old if old is not None else v.entry(f)
        d = X.sub(val, o)
        rep = lambda m, k: self.report(eng, inst, m, st, k)
        H, P = s.entry('variableDataHeaderSize'), s.entry('pageSize')
        if f in ('bytesRead', 'fileOffset'):
            t = 'b' if f == 'bytesRead' else 'f'
            if 'n' in a and t not in a:
                if not st.eq(d, a['n']):
                    rep('%s advances by %s after %s bytes were copied' % (f, X.show(d), X.show(a['n'])), 'advance')
                a[t] = 1
                if 'b' in a and 'f' in a:
                    st.auto = put((), next=1)
                else:
                    st.auto = put(st.auto, **{t: 1})
            elif f == 'fileOffset' and st.eq(d, H) and 'hdr' not in a:
                if 'next' not in a and st.known(X.eq(X.binop('urem', o, P, 32), K(0))) is not True:
                    rep('a page header is skipped in the middle of a page', 'header')
                st.auto = put(st.auto, hdr=1)
            else:
                rep('%s changes by %s' % (f, X.show(d)), 'advance')
        else:
            rep('%s of a stream is changed' % f, 'fixed')

    def on_file(self, eng, st, ev):
        if ev.name == 'read':
            self.count('page reads', ev.inst)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        if st.known(X.eq(val, K(0))) is True:
            return
        self.count('exits', inst)
        if 'n' in a:
            self.report(eng, inst, 'the stream is not advanced past the bytes returned', st, 'advance')
        if 'next' in a and 'hdr' in a:
            self.report(eng, inst, 'the stream is moved past a page header that was not reached', st, 'header')
        if not st.eq(val, eng.ghost(st, 'done')):
            self.report(eng, inst, '%s is returned as number of bytes although %s were copied' % (X.show(val), X.show(eng.ghost(st, 'done'))), st, 'ret')
        # nothing is held back
        v = self.v
        done = eng.ghost(st, 'done')
        if st.known(X.ltu(done, self.len)) is not False and st.known(X.ltu(v.now(st, 'bytesRead'), v.entry('totalBytes'))) is not False:
            self.report(eng, inst, 'reading can stop although the buffer has room and the stream has more data', st, 'short')


# ---------------------------------------------------------------- P49
class SearchComplete(DBRule):
    """a lookup gives up only when every page and record that could hold the key has been excluded by a comparison"""
    name = 'search-complete'
    fork_cmp = True
    linrel = True
    notrunc = True
    flags_needed = frozenset((F_BIN,))

    # ghosts: pages [glo, ghi] and records [rlo, rhi] of the page read, [blo, bhi] of the write buffer may still hold the key
    # auto: F a storage operation failed, A pages excluded, B write buffer excluded,
    # O only the page in the read buffer is left, S the spline was asked, d the side the last page compared lies on
    def begin(self, eng, st):
        s = self.s
        self.key = param(eng, 1)
        g = lambda n, v: eng.ghost(st, n, v)
        g('glo', s.entry('minDataPageId'))
        g('ghi', X.sub(s.entry('nextDataPageId'), K(1)))
        self.fresh(eng, st, 1, 'r')
        self.fresh(eng, st, 0, 'b')
        st.assume(X.ltu(s.entry('nextDataPageId'), s.entry('minDataPageId')), False)
        st.auto = ()

    def fresh(self, eng, st, slot, g):
        n = self.s.count(st, slot)
        eng.store(st, self.s.slotaddr(slot, 4), 2, n)
        eng.ghost(st, g + 'lo', K(0))
        eng.ghost(st, g + 'hi', X.sub(n, K(1)))

    @staticmethod
    def entails(st, d):
        return below(st, X.sub(d, K(1)))

    def rep(self, eng, st, inst, msg, key):
        self.report(eng, inst, msg, st, key)

    def logical(self, st):
        """logical number of the page in the read buffer"""
        s = self.s
        b = s.now(st, 'bufferedPageId')
        num = s.entry('numDataPages')
        isl = lambda e: e.k == 'urem' and e.a[1] is num
        if isl(b):
            return b.a[0]
        for d, bnd in st.bd.items():
            if bnd[0] == bnd[1] == 0:
                c, t = X.terms(d)
                if c == 0 and len(t) == 2 and b in t:
                    (o, k), = [z for z in t.items() if z[0] is not b]
                    if k == -t[b] and isl(o):
                        return o.a[0]
        return b

    def bounds(self, eng, st):
        s = self.s
        lo, hi = eng.ghost(st, 'glo'), eng.ghost(st, 'ghi')
        if st.known(X.ltu(lo, s.entry('minDataPageId'))) is True:
            lo = eng.ghost(st, 'glo', s.entry('minDataPageId'))
        return lo, hi

    def keep(self, eng, st):
        s = self.s
        lo, hi = self.bounds(eng, st)
        mn, nx = s.entry('minDataPageId'), s.entry('nextDataPageId')
        out = []
        for d in (X.sub(X.sub(mn, K(1)), lo), X.sub(hi, nx)):
            if X.isk(d):
                continue
            p = X.lts(d, K(0))
            if st.known(p) is None and below(st, d):
                st.assume(p, True)
            out.append(p)
        return out

    def excl(self, eng, st, inst, addr, c, strict=True):
        """key < (c<0) or key > (c>0) the record at addr (or equal to it if not strict)"""
        s = self.s
        sl = s.slot_of(addr)
        if sl is None or sl[0] not in (0, 1):
            return False
        idx, rest = recidx(s, addr, sl[0])
        if not (X.isk(rest) and rest.a == 0):
            return False
        g = lambda n, v=None: eng.ghost(st, n, v)
        st._add(idx, 0, None, None) if not X.isk(idx) else None      # records compared lie on the page
        more = K(1) if strict else K(0)
        if sl[0] == 0:
            if c < 0:
                g('bhi', X.sub(idx, more))
            else:
                g('blo', X.add(idx, more))
                st.auto = put(st.auto, A=1)
            return True
        p = self.logical(st)
        first = X.isk(idx) and idx.a == 0
        last = st.eq(X.add(idx, K(1)), s.count(st, 1))
        # comparisons with the bounds of a page choose the page
        known = p is not self.s.now(st, 'bufferedPageId')
        edge = first if c < 0 else last
        if not first and not last:
            g('rhi' if c < 0 else 'rlo', X.add(idx, X.scale(more, c)))
        st.auto = put(st.auto, B=1) if c < 0 else st.auto
        if edge and strict:
            if 'Q' in items(st.auto):       # the key is on this page
                st.auto = (('F', 1),)
                return True
            if known:
                g('ghi' if c < 0 else 'glo', X.add(p, K(c)))
                st.auto = put(st.auto, d=c)
            st.auto = put(st.auto, L=None, H=None)
        else:
            st.auto = put(st.auto, **{'H' if c < 0 else 'L': 1})
            a = items(st.auto)
            if 'L' in a and 'H' in a:
                g('glo', p)
                g('ghi', p)
                st.auto = put(st.auto, L=None, H=None)
        return True

    def on_call(self, eng, st, ev):
        if 'F' in items(st.auto):
            return
        if ev.kind == 'fn' and ev.name == 'splineFind':
            self.count('spline estimates', ev.inst)
            s = self.s
            if ev.args[1] is not self.key:
                self.rep(eng, st, ev.inst, 'the spline is asked for %s, not for the key' % X.show(ev.args[1]), 'spline-key')
            if ev.args[0] is not s.entry('spl'):
                self.rep(eng, st, ev.inst, 'the spline asked is %s' % X.show(ev.args[0]), 'spline')
            loc, lo, hi = [eng.load(st, a, 4) for a in ev.args[3:6]]
            for a, b in ((loc, lo), (hi, loc), (s.entry('nextDataPageId'), X.add(hi, K(1)))):
                a.nn = b.nn = True
                st.assume(X.ltu(a, b), False)
            eng.ghost(st, 'glo', lo)
            eng.ghost(st, 'ghi', hi)
            st.auto = put(st.auto, S=1)
            return
        if ev.kind != 'cmp' or ev.name != 'compareKey':
            return
        a, b = ev.args[:2]
        r, sg = (b, 1) if st.eq(a, self.key) else (a, -1) if st.eq(b, self.key) else (None, 0)
        self.count('key comparisons', ev.inst)
        if r is None:
            return
        c = ev.res.a * sg
        if c == 0:
            sl = self.s.slot_of(r)
            if sl is not None and sl[0] in (0, 1):
                idx, rest = recidx(self.s, r, sl[0])
                if X.isk(rest) and rest.a == 0:
                    if not X.isk(idx):
                        st._add(idx, 0, None, None)
                    if sl[0] == 1:
                        p = self.logical(st)
                        eng.ghost(st, 'glo', p)
                        eng.ghost(st, 'ghi', p)
                        st.auto = put(st.auto, B=1, Q=1, L=None, H=None)
                    else:
                        st.auto = put(st.auto, A=1)
            return
        self.excl(eng, st, ev.inst, r, c)

    def on_file(self, eng, st, ev):
        if 'F' in items(st.auto):
            return
        s = self.s
        if ev.res is not None and X.isk(ev.res) and ev.res.a != 1:
            st.auto = (('F', 1),)
        if ev.name == 'read' and ev.info['file'] == 'dataFile' and ev.res.a == 1:
            self.count('pages read', ev.inst)
            sl = s.slot_of(ev.args[0])
            if sl is not None and sl[0] == 1:
                self.fresh(eng, st, 1, 'r')
                st.auto = put(st.auto, O=None, L=None, H=None, Q=None)

    def on_assume(self, eng, st, inst):
        # keys compared as numbers
        if 'F' in items(st.auto):
            return
        for d, (lo, hi, exc) in list(st.bd.items()):
            if d.k != 'lin' or len(d.a[1]) != 2 or d.a[0] != 0:
                continue
            t = dict(d.a[1])
            bl = [x for x in t if x.k == 'blob' and x.a[1] is self.s.entry('keySize')]
            k = [x for x in bl if x.a[0] is self.key]
            if len(bl) != 2 or len(k) != 1 or t[bl[0]] != -t[bl[1]]:
                continue
            o = bl[0] if bl[1] is k[0] else bl[1]
            if t[k[0]] < 0:
                lo, hi = -hi, -lo
            sl = self.s.slot_of(o.a[0])
            if sl is None or sl[0] != 0:
                continue
            idx, rest = recidx(self.s, o.a[0], 0)
            if not (X.isk(rest) and rest.a == 0):
                continue
            if lo >= 0:                 # all pages hold smaller keys than the write buffer
                st.auto = put(st.auto, A=1)
            if hi <= -1 and X.isk(idx) and idx.a == 0 or lo >= 1 and st.eq(X.add(idx, K(1)), self.s.count(st, 0)):
                st.auto = put(st.auto, B=1)

    def on_enter(self, eng, st, block):
        """remember what has been excluded for good"""
        a = items(st.auto)
        if 'F' in a:
            return
        g = lambda n: eng.ghost(st, n)
        if 'B' not in a and below(st, X.sub(g('bhi'), g('blo'))):
            st.auto = put(st.auto, B=1)
        if 'A' not in a:
            if 'O' not in a:
                lo, hi = self.bounds(eng, st)
                p = self.logical(st)
                if below(st, X.sub(X.sub(p, K(1)), lo)) and below(st, X.sub(X.sub(hi, K(1)), p)):
                    st.auto = put(st.auto, O=1)
            if self.pages(eng, st) is None:
                st.auto = put(st.auto, A=1, O=None, d=None)

    def pages(self, eng, st):
        """None if no page can hold the key, else why"""
        s = self.s
        g = lambda n: eng.ghost(st, n)
        lo, hi = self.bounds(eng, st)
        if below(st, X.sub(hi, lo)) or below(st, X.sub(hi, s.entry('minDataPageId'))) or below(st, X.sub(X.sub(s.entry('nextDataPageId'), K(1)), lo)):
            return None
        p = self.logical(st)
        if not below(st, X.sub(g('rhi'), g('rlo'))):
            return 'records %s to %s of page %s were' % (X.show(g('rlo')), X.show(g('rhi')), X.show(p))
        if 'O' not in items(st.auto):
            return 'pages %s to %s but %s were' % (X.show(lo), X.show(hi), X.show(p))
        return None

    def on_ret(self, eng, st, inst, val):
        self.on_enter(eng, st, None)
        a = items(st.auto)
        if val is None or st.known(X.eq(val, K(0))) is True or 'F' in a:
            return
        self.count('exits without the record', inst)
        s = self.s
        g = lambda n: eng.ghost(st, n)
        if 'B' not in a and not below(st, X.sub(g('bhi'), g('blo'))):
            self.rep(eng, st, inst, 'the lookup fails although records %s to %s of the write buffer were not excluded' % (X.show(g('blo')), X.show(g('bhi'))), 'buffer')
        if 'A' not in a:
            self.rep(eng, st, inst, 'the lookup fails although %s not excluded' % self.pages(eng, st), 'page')
