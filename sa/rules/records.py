"""Rules about inserting records: key order, where the record goes, record-level
consistency, variable data."""
from .. import expr as X
from ..expr import K, LD
from ..base import *

NO_VAR = (0xFFFFFFFF, -1)


def param(eng, n):
    if n >= len(eng.params):
        raise Broken('%s has fewer than %d parameters' % (eng.fn.name, n + 1))
    return eng.params[n]


def items(auto):
    return dict(auto)


def put(auto, **kw):
    d = dict(auto)
    for k, v in kw.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def rec(s, slot, idx, off=None):
    a = X.add(s.slotaddr(slot), s.entry('headerSize'))
    a = X.add(a, X.mul(s.entry('recordSize'), idx))
    return X.add(a, off) if off is not None else a


def recidx(s, addr, slot):
    """record number of an address of the form slot + headerSize + recordSize*i (+ member offset):
    -> (i, rest)"""
    d = X.sub(addr, X.add(s.slotaddr(slot), s.entry('headerSize')))
    c, t = X.terms(d)
    R = s.entry('recordSize')
    idx = K(0)
    rest = {}
    for x, k in t.items():
        if x is R:
            idx = X.add(idx, K(k))
        elif x.k == 'mul' and R in x.a:
            f = list(x.a)
            f.remove(R)
            p = K(k)
            for y in f:
                p = X.mul(p, y)
            idx = X.add(idx, p)
        else:
            rest[x] = k
    return idx, X.fromterms(c, rest)


# ---------------------------------------------------------------- P07
class KeyOrder(DBRule):
    """a record is accepted only if its key is greater than the last stored key"""
    name = 'key-order'
    fork_cmp = True

    def begin(self, eng, st):
        self.key = param(eng, 1)
        self.c0 = self.s.count(st, 0)
        st.auto = 'unchecked'

    def on_call(self, eng, st, ev):
        if ev.kind != 'cmp' or ev.name != 'compareKey' or self.key not in ev.args[:2]:
            return
        s = self.s
        if st.auto != 'unchecked':
            return
        a, b = ev.args[:2]
        v = ev.res.a
        prev = b
        if b is self.key:
            prev, v = a, -v
        sl = s.slot_of(prev)
        self.count('comparisons with the previous key', ev.inst)
        rep = lambda m, k: self.report(eng, ev.inst, m + ' (entry %s)' % eng.fn.name, st, k)
        if sl is None:
            return
        if sl[0] == 0:
            want = rec(s, 0, X.sub(s.count(st, 0), K(1)))
            if not st.eq(prev, want):
                rep('the new key is compared with %s, not with the last record of the write buffer' % X.show(prev), 'prev-buffer')
        elif sl[0] == 1:
            want = rec(s, 1, X.sub(s.count(st, 1), K(1)))
            if not st.eq(prev, want):
                rep('the new key is compared with %s, not with the last record of the last page' % X.show(prev), 'prev-page')
            phys = X.binop('urem', X.sub(s.entry('nextDataPageId'), K(1)), s.entry('numDataPages'), 32)
            if not st.eq(s.now(st, 'bufferedPageId'), phys):
                rep('the new key is compared with a record of a page other than the last one written', 'prev-which')
            if st.known(X.eq(s.count(st, 0), K(0))) is not True:
                rep('the new key is compared with the last page although the write buffer may hold later records', 'prev-skipped')
        else:
            rep('the new key is compared with page buffer slot %s' % sl[0], 'prev-slot')
        st.auto = 'greater' if v > 0 else 'not-greater'

    def partkey(self, eng, st):
        if st.auto == 'unchecked':
            return st.known(X.eq(self.c0, K(0))), st.known(X.eq(self.s.entry('nextDataPageId'), K(0)))

    def accept(self, eng, st, inst, dst):
        sl = self.s.slot_of(dst)
        if sl is None or sl[0] != 0 or X.isk(sl[1]):
            return
        self.count('record copies', inst)
        if st.auto == 'not-greater':
            self.report(eng, inst, 'a record is stored although its key is not greater than the previous key (entry %s)' % eng.fn.name,
                        st, 'accepted')
        elif st.auto == 'unchecked':
            s = self.s
            if st.known(X.eq(s.entry('nextDataPageId'), K(0))) is not True or st.known(X.eq(self.c0, K(0))) is not True:
                self.report(eng, inst, 'a record is stored without comparing its key with the previous one although records may exist (entry %s)'
                            % eng.fn.name, st, 'unchecked')

    def on_copy(self, eng, st, inst, dst, src, n):
        if src is self.key:
            self.accept(eng, st, inst, dst)

    def on_ret(self, eng, st, inst, val):
        if val is None:
            return
        if st.auto == 'not-greater' and st.known(X.eq(val, K(0))) is not False:
            self.report(eng, inst, '%s can return success for a key that is not greater than the previous one' % eng.fn.name, st, 'ret')
        if st.auto == 'greater' and st.known(X.eq(val, K(1))) is True:
            self.report(eng, inst, '%s rejects a key that is greater than the previous one' % eng.fn.name, st, 'rejects')


# ---------------------------------------------------------------- P08
class RecordStored(DBRule):
    """a successful insert leaves the whole record in the write buffer"""
    name = 'record-stored'
    fork_cmp = True
    flags_needed = frozenset((F_VDATA, F_MAXMIN, F_BMAP))

    def begin(self, eng, st):
        self.key, self.data = param(eng, 1), param(eng, 2)
        self.var = param(eng, 3) if eng.fn.name == 'embedDBPutVar' else None
        st.auto = ()

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        sl = s.slot_of(dst)
        if sl is None or sl[0] != 0:
            return
        rep = lambda m, k: self.report(eng, inst, m + ' (entry %s)' % eng.fn.name, st, k)
        k, d = s.entry('keySize'), s.entry('dataSize')
        c = s.count(st, 0)
        a = items(st.auto)
        mm = {'mk': K(14), 'xk': X.add(K(14), k), 'nd': X.add(K(14), X.scale(k, 2)), 'xd': X.add(X.add(K(14), X.scale(k, 2)), d)}
        for nm, off in mm.items():
            if sl[1] is off:
                want, size = (self.key, k) if nm[1] == 'k' else (self.data, d)
                if src is not want:
                    rep('the %s in the page header is set from %s' % (NAMES[nm], X.show(src) if src is not None else '?'), 'mm-src:' + nm)
                elif n is not size:
                    rep('the %s in the page header is copied with size %s' % (NAMES[nm], X.show(n)), 'mm-size:' + nm)
                self.count('minimum and maximum updates', inst)
                st.auto = put(st.auto, **{nm: 1})
                return
        if X.isk(sl[1]):
            return
        if src is self.key:
            if not st.eq(dst, rec(s, 0, c)):
                rep('the key is stored at %s, not behind the last record' % X.show(dst), 'key-where')
            if n is not k:
                rep('%s bytes of the key are stored' % X.show(n), 'key-size')
            m = s.entry('maxRecordsPerPage')
            if not (X.isk(c) and c.a == 0) and saturate(st, X.ltu(c, m)) is not True and not below(st, X.sub(c, m)) \
                    and st.known(X.eq(c, m)) is not False:        # with this, no page ever has more
                rep('a record is added to a page that may be full already', 'room')
            self.count('key copies', inst)
            st.auto = put(st.auto, K=1, c0=c)
        elif src is self.data:
            if not st.eq(dst, rec(s, 0, c, k)):
                rep('the data is stored at %s, not behind the key of the record' % X.show(dst), 'data-where')
            if n is not d:
                rep('%s bytes of the data are stored' % X.show(n), 'data-size')
            self.count('data copies', inst)
            st.auto = put(st.auto, D=1, c0=c)
        elif X.isk(n) and n.a == 4:
            pass        # seen as a store
        else:
            rep('%s bytes from %s are copied into the records of the write buffer' % (X.show(n), X.show(src) if src is not None else '?'), 'stray')

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        sl = s.slot_of(addr)
        if sl is None and eng.fn.name == 'embedDBPut' and s.field(addr) == 'currentVarLoc' and items(st.auto).get('V') == 'loc':
            st.auto = put(st.auto, m=1)
        if sl is None or sl[0] != 0:
            return
        rep = lambda m, k: self.report(eng, inst, m + ' (entry %s)' % eng.fn.name, st, k)
        if X.isk(sl[1]):
            if sl[1].a == 4:
                a = items(st.auto)
                if old is None:
                    old = None
                self.count('record count updates', inst)
                if X.isk(val) and val.a == 0:
                    if 'C' in a:
                        rep('the record count is cleared after the record was added', 'count-clear')
                    return
                base = a.get('c0')
                if 'C' in a or base is not None and not st.eq(val, X.add(base, K(1))) or \
                        base is None and not (old is not None and st.eq(val, X.add(old, K(1)))):
                    rep('the record count becomes %s' % X.show(val), 'count')
                st.auto = put(st.auto, C=1)
            return
        c = items(st.auto).get('c0', s.count(st, 0))
        k, d = s.entry('keySize'), s.entry('dataSize')
        if st.eq(addr, rec(s, 0, c, X.add(k, d))) and size == 4:
            self.count('variable data pointers', inst)
            has = st.known(X.eq(s.now(st, 'recordHasVarData'), K(0)))
            loc = X.binop('urem', s.now(st, 'currentVarLoc'), X.mul(s.entry('numVarPages'), s.entry('pageSize')), 32)
            if X.isk(val) and val.a in NO_VAR:
                st.auto = put(st.auto, V='none')
            elif st.eq(val, loc):
                st.auto = put(st.auto, V='loc', m=None)
            else:
                rep('the variable data pointer of the record is %s' % X.show(val), 'varptr')
            v = items(st.auto).get('V')
            if v == 'none' and has is not True or v == 'loc' and has is not False:
                rep('the variable data pointer does not follow whether the record has variable data', 'varptr-cond')
        elif X.isk(X.sub(addr, s.slotaddr(0))) is False:
            r = X.sub(addr, s.slotaddr(0))
            if s.entry('recordSize') in r.leaves:
                rep('a store into the records of the write buffer at %s' % X.show(addr), 'stray')

    def on_fill(self, eng, st, inst, dst, byte, n):
        sl = self.s.slot_of(dst)
        if sl and sl[0] == 0 and X.isk(sl[1]) and sl[1].a == 0:
            a = items(st.auto)
            if 'K' in a or 'D' in a or 'C' in a:
                self.report(eng, inst, 'the write buffer is cleared after the record was stored in it', st, 'cleared')

    def on_call(self, eng, st, ev):
        s = self.s
        if ev.kind == 'cmp' and ev.name == 'compareData':
            k, d = s.entry('keySize'), s.entry('dataSize')
            lo = s.slotaddr(0)
            mn = X.add(lo, X.add(K(14), X.scale(k, 2)))
            mx = X.add(mn, d)
            a, b = ev.args[:2]
            v = ev.res.a
            if b is self.data:
                a, b, v = b, a, -v
            if a is self.data:
                if b is mn:
                    st.auto = put(st.auto, cn=v)
                elif b is mx:
                    st.auto = put(st.auto, cx=v)
        elif ev.kind == 'slot' and ev.name == 'updateBitmap':
            self.count('bitmap updates', ev.inst)
            if ev.args[0] is not self.data or ev.args[1] is not s.slotaddr(0, 6):
                self.report(eng, ev.inst, 'the bitmap update gets (%s, %s)' % (X.show(ev.args[0]), X.show(ev.args[1])), st, 'bitmap-args')
            st.auto = put(st.auto, B=1)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        s = self.s
        a = items(st.auto)
        self.count('success exits', inst)
        rep = lambda m, k: self.report(eng, inst, '%s can return success although %s' % (eng.fn.name, m), st, k)
        for k, m in (('K', 'the key was not stored'), ('D', 'the data was not stored'), ('C', 'the record was not counted')):
            if k not in a:
                rep(m, 'missing:' + k)
        if s.flag(st, F_VDATA) is not False:
            if 'm' in a:
                rep('its variable data will not be placed where the record points', 'varptr-moved')
            if 'V' not in a:
                rep('the record has no variable data pointer', 'missing:V')
            elif self.var is not None:
                isnull = st.known(X.eq(self.var, K(0)))
                if isnull is not True and a['V'] != 'loc' or isnull is not False and a['V'] != 'none':
                    rep('the variable data pointer does not match the variable data given', 'varptr-arg')
        if s.flag(st, F_BMAP) is not False and 'B' not in a:
            rep('the bitmap of the page was not updated', 'missing:B')
        if s.flag(st, F_MAXMIN) is not False and 'c0' in a:
            z = st.known(X.eq(a['c0'], K(0)))
            if z is not False:
                for nm in ('mk', 'xk', 'nd', 'xd'):
                    if nm not in a:
                        rep('the %s of the page was not set for its first record' % NAMES[nm], 'mm-first:' + nm)
            if z is not True:
                if 'xk' not in a:
                    rep('the largest key of the page was not updated', 'mm-next:xk')
                if 'mk' in a:
                    rep('the smallest key of the page was changed', 'mm-next:mk')
                for nm, cv, sign in (('nd', 'cn', -1), ('xd', 'cx', 1)):
                    if cv not in a:
                        rep('the %s of the page was not compared with the new data' % NAMES[nm], 'mm-next:' + nm)
                    elif (a[cv] == sign) != (nm in a):
                        rep('the %s of the page does not follow the comparison' % NAMES[nm], 'mm-next:' + nm)


NAMES = {'mk': 'smallest key', 'xk': 'largest key', 'nd': 'smallest data', 'xd': 'largest data'}


# ---------------------------------------------------------------- P09
class RecordLevel(DBRule):
    """with record-level consistency a successful insert has written its record to storage"""
    name = 'record-level'
    flags_needed = frozenset((F_RLC,))

    def begin(self, eng, st):
        st.auto = ()

    def counted(self, st):
        return 'C' in items(st.auto)

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        sl = s.slot_of(addr)
        if sl is None:
            return
        if sl[0] == 0:
            if X.isk(sl[1]) and sl[1].a == 0:
                return              # page number
            if X.isk(sl[1]) and sl[1].a == 4 and not (X.isk(val) and val.a == 0):
                st.auto = put(st.auto, C=1, W=None)
            else:
                st.auto = put(st.auto, W=None)
        self.vartouch(eng, st, sl)

    def vartouch(self, eng, st, sl):
        s = self.s
        if s.flag(st, F_VDATA) is True and not X.isk(sl[1]):
            i = s.flag(st, F_INDEX)
            if sl[0] == 4 and i is True or sl[0] == 2 and i is False:
                st.auto = put(st.auto, vd=1)

    def on_assume(self, eng, st, inst):
        if 'vd' in items(st.auto):
            s = self.s
            off = X.binop('urem', s.now(st, 'currentVarLoc'), s.entry('pageSize'), 32)
            if st.known(X.eq(off, s.entry('variableDataHeaderSize'))) is True:
                # an empty page: the cursor is moved past all data added (property P46)
                st.auto = put(st.auto, vd=None)

    def on_copy(self, eng, st, inst, dst, src, n):
        sl = self.s.slot_of(dst)
        if sl is None:
            return
        if sl[0] == 0 and not X.isk(sl[1]):
            st.auto = put(st.auto, W=None)
        self.vartouch(eng, st, sl)

    def on_call(self, eng, st, ev):
        if ev.kind == 'slot' and ev.name == 'updateBitmap':
            st.auto = put(st.auto, W=None)

    def on_file(self, eng, st, ev):
        if ev.name != 'write' or ev.res.a != 1:
            return
        f = ev.info['file']
        if f == 'dataFile' and perm_or_temp(self, st, ev) == 'temp':
            self.count('temporary page writes', ev.inst)
            sl = self.s.slot_of(ev.args[0])
            if sl and sl[0] == 0:
                st.auto = put(st.auto, W=1)
        elif f == 'varFile':
            st.auto = put(st.auto, vd=None)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        if self.s.flag(st, F_RLC) is False:
            return
        self.count('success exits', inst)
        a = items(st.auto)
        if 'C' in a and 'W' not in a:
            self.report(eng, inst, '%s can return success with record-level consistency although the page with the new record was not written'
                        % eng.fn.name, st, 'notwritten')
        if 'vd' in a:
            self.report(eng, inst, '%s can return success with record-level consistency although the variable data is only in memory'
                        % eng.fn.name, st, 'var-notwritten')


# ---------------------------------------------------------------- P10, P11
class RlcBlocks(DBRule):
    """the blocks for temporary pages are moved before permanent pages reach them, and temporary pages stay inside"""
    name = 'rlc-blocks'
    part = 'all'

    def begin(self, eng, st):
        st.auto = ()

    def partkey(self, eng, st):
        s = self.s
        if s.flag(st, F_RLC) is not True:
            return None
        E = s.entry('eraseSizeInPages')
        start, mn = s.now(st, 'rlcPhysicalStartingPage'), s.now(st, 'minDataPageId')
        L = s.now(st, 'nextRLCPhysicalPageLocation')
        return (st.known(X.eq(self.ring(mn), self.ring(X.add(start, X.scale(E, 2))))),
                st.known(X.eq(L, start)), st.known(X.eq(L, X.add(start, K(1)))))

    def ring(self, e):
        return X.binop('urem', e, self.s.entry('numDataPages'), 32)

    def on_file(self, eng, st, ev):
        if ev.info['file'] != 'dataFile' or ev.name not in ('write', 'erase'):
            return
        s = self.s
        E, N = s.entry('eraseSizeInPages'), s.entry('numDataPages')
        rep = lambda m, k: self.report(eng, ev.inst, m + ' (entry %s)' % eng.fn.name, st, k)
        if ev.name == 'erase':
            lf = leaf_fields(ev.args[0])
            if lf & {'rlcPhysicalStartingPage', 'nextRLCPhysicalPageLocation'} and ev.res.a == 1:
                a = items(st.auto)
                st.auto = put(st.auto, er=a.get('er', ()) + (ev.args[0],))
            return
        if perm_or_temp(self, st, ev) != 'temp':
            return
        start = s.now(st, 'rlcPhysicalStartingPage')
        nxt = s.now(st, 'nextDataPageId')
        a = items(st.auto)
        L = ev.args[1]
        self.count('temporary page writes', ev.inst)
        if 'shift' not in a:
            if st.known(X.eq(self.ring(nxt), start)) is not False:
                rep('a temporary page is written although the next permanent page would go into the blocks for temporary pages', 'noshift')
        # inside the two blocks
        if not st.eq(L, start):
            lt = st.known(X.ltu(L, start))
            ok = False
            if lt is not None:
                d = X.sub(X.add(L, N) if lt else L, start)
                ok = st.known(X.ltu(d, X.scale(E, 2))) is True
            if not ok:
                rep('a temporary page is written at %s, which may be outside the two blocks for temporary pages' % X.show(L), 'outside')
        # second page of a block: the other block must have been erased
        second = st.known(X.eq(X.binop('urem', L, E, 32), K(1)))
        if 'shift' in a and st.eq(L, start):
            second = False
        if second is not False:
            e1 = st.known(X.eq(L, X.add(start, K(1))))
            other = self.ring(X.add(start, E)) if e1 else start
            er = a.get('er', ())
            if e1 is None and not er or not er or not st.eq(er[-1], other):
                rep('the second page of a block is written although the other block for temporary pages was not erased', 'other')

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        n = s.field(addr)
        if n is None:
            return
        E, N = s.entry('eraseSizeInPages'), s.entry('numDataPages')
        rep = lambda m, k: self.report(eng, inst, m + ' (entry %s)' % eng.fn.name, st, k)
        a = items(st.auto)
        if n == 'rlcPhysicalStartingPage':
            self.count('block moves', inst)
            o = old if old is not None else s.entry(n)
            if not st.eq(val, self.ring(X.add(o, E))):
                rep('the blocks for temporary pages move to %s' % X.show(val), 'shift-to')
            if st.known(X.eq(self.ring(s.now(st, 'nextDataPageId')), o)) is not True:
                rep('the blocks for temporary pages move although permanent pages have not reached them', 'shift-early')
            er = a.get('er', ())
            want = [o, self.ring(X.add(o, E)), self.ring(X.add(self.ring(X.add(o, E)), E))]
            m0 = s.entry('minDataPageId')
            k = len(er)
            # oldest page right behind the blocks: it is in the block moved into
            if k not in (2, 3) or any(not (st.eq(x, y) or self.same(x, y, o, E)) for x, y in zip(er, want)):
                rep('moving the blocks for temporary pages erases %s' % ', '.join(X.show(x) for x in er), 'shift-erases')
            adv = X.sub(s.now(st, 'minDataPageId'), s.entry('minDataPageId'))
            fulls = a.get('freed', 0)
            if k == 3 and not fulls or k == 2 and fulls:
                rep('%d blocks are erased and %d given up when the blocks for temporary pages move' % (k, fulls), 'shift-freed')
            if k == 2:
                # the block moved into must be free: the oldest page must not be in it
                c = X.eq(self.ring(s.now(st, 'minDataPageId')), self.ring(X.add(o, X.scale(E, 2))))
                if st.known(c) is not False:
                    rep('the blocks for temporary pages move into a block that may hold valid pages', 'shift-into')
            st.auto = put(st.auto, shift=1, er=())
        elif n == 'nextRLCPhysicalPageLocation':
            self.count('temporary page cursor updates', inst)
        elif n == 'minDataPageId' and 'er' in a and a['er']:
            o = old if old is not None else s.entry(n)
            if X.sub(val, o) is E:
                st.auto = put(st.auto, freed=a.get('freed', 0) + 1)

    def same(self, x, y, o, E):
        return False

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        if 'shift' in a and val is not None and st.known(X.eq(val, K(0))) is not False:
            pass


class RlcMove(RlcBlocks):
    """the blocks move in time, to the right place, and are erased"""
    name = 'rlc-move'

    def report(self, eng, inst, msg, st, key=None):
        if key == 'noshift' or key.startswith('shift'):
            RlcBlocks.report(self, eng, inst, msg, st, key)


class RlcInside(RlcBlocks):
    """temporary pages stay inside the blocks, which are erased in turn"""
    name = 'rlc-inside'

    def report(self, eng, inst, msg, st, key=None):
        if key in ('outside', 'other'):
            RlcBlocks.report(self, eng, inst, msg, st, key)


# ---------------------------------------------------------------- P46
def forms(st, e):
    """e and what the equations known make of it"""
    out = [e]
    for d, (l, h, _) in st.bd.items():
        if l != h or e not in d.leaves:
            continue
        k = X.terms(d)[1].get(e)
        if k in (1, -1):
            out.append(st.val(X.sub(e, X.scale(X.sub(d, K(l)), k))))
    return out


def multiple(st, e, P):
    """is e known to be a multiple of P (True/None/False)?"""
    t = st.known(X.eq(X.binop('urem', e, P, 32), K(0)))
    if t is not None:
        return t
    for x in [e] + [X.subst(e, {l: y}) for l in X.terms(e)[1] for y in forms(st, l)[1:]]:
        r = dict(X.terms(x)[1])
        c = X.terms(x)[0]
        for y, k in list(r.items()):
            # x - urem(x, P) is a multiple of P
            if y.k == 'urem' and y.a[1] is P and k == -1:
                rest = X.sub(X.sub(x, X.scale(y, -1)), y.a[0])
                cc, tt = X.terms(rest)
                if cc == 0 and not (set(tt) - {P}):
                    return True
    return None


class VarCursor(DBRule):
    """the variable-data cursor and the variable-data pages move together"""
    name = 'var-cursor'
    flags_needed = frozenset((F_VDATA, F_INDEX))
    ptrjoin = True
    linrel = True

    # ghost exp: where the cursor belongs after the bytes placed so far; auto adv: that page was written, the cursor belongs
    # behind the header of the next page; fresh: nothing is on the page yet; n: bytes placed that the cursor was not seen past
    def begin(self, eng, st):
        eng.ghost(st, 'exp', self.s.entry('currentVarLoc'))
        st.auto = ()

    def wslot(self, st):
        i = self.s.flag(st, F_INDEX)
        if self.s.flag(st, F_VDATA) is False:
            return None
        none = st.known(X.eq(self.s.entry('indexFile'), K(0)))
        if i is not None and none is i:
            return None         # no state has an index file without the index flag
        return 4 if i else 2 if i is False else None

    def off(self, st):
        return X.binop('urem', self.s.now(st, 'currentVarLoc'), self.s.entry('pageSize'), 32)

    def room4(self, st):
        return X.ltu(X.sub(self.s.entry('pageSize'), K(4)), self.off(st))

    def preds(self, eng, st):
        return [self.room4(st)] if eng.fn.name == 'embedDBPutVar' else []

    def keep(self, eng, st):
        P = self.s.entry('pageSize')
        exp = eng.ghost(st, 'exp')
        f = X.eq(X.binop('urem', exp, P, 32), K(0))
        if multiple(st, exp, P) is True and st.known(f) is None:
            st.assume(f, True)
        return [f]

    def advanced(self, eng, st, now):
        s = self.s
        exp = eng.ghost(st, 'exp')
        P, H = s.entry('pageSize'), s.entry('variableDataHeaderSize')
        d = X.sub(now, exp)
        z = multiple(st, exp, P)
        return z is True and st.eq(d, H) or z is not True and st.eq(d, X.add(X.sub(P, X.binop('urem', exp, P, 32)), H))

    def sync(self, eng, st, inst, rep):
        """the cursor has to be where it belongs; True if it is"""
        s = self.s
        a = items(st.auto)
        now, exp = s.now(st, 'currentVarLoc'), eng.ghost(st, 'exp')
        if 'adv' in a:
            d = X.sub(now, exp)
            if not self.advanced(eng, st, now):
                rep('after a variable-data page was written the cursor is moved by %s, not to the data of the next page' % X.show(d), 'advance')
            st.auto = put(st.auto, adv=None, n=None, fresh=1)
        else:
            ok = st.eq(now, exp)
            if not ok:
                rep('the variable-data cursor is at %s instead of %s' % (X.show(now), X.show(exp)), 'step')
            st.auto = put(st.auto, n=None)
        eng.ghost(st, 'exp', now)

    def on_file(self, eng, st, ev):
        if ev.info['file'] == 'varFile' and ev.name == 'write' and ev.res.a == 1:
            self.count('variable data page writes', ev.inst)
            a = items(st.auto)
            if 'adv' in a:
                self.sync(eng, st, ev.inst, lambda m, k: self.report(eng, ev.inst, 'a second variable-data page is written although %s (entry %s)' % (m, eng.fn.name), st, k))
            st.auto = put(st.auto, adv=1)

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        sl = s.slot_of(dst)
        if sl is None or sl[0] not in (2, 4) or sl[0] != self.wslot(st):
            return
        if X.isk(sl[1]):
            return
        self.sync(eng, st, inst, lambda m, k: self.report(eng, inst, 'variable data is placed although %s (entry %s)' % (m, eng.fn.name), st, k))
        a = items(st.auto)
        if not st.eq(sl[1], self.off(st)):
            self.report(eng, inst, 'variable data is placed at offset %s of the page, not at the cursor (entry %s)' % (X.show(sl[1]), eng.fn.name),
                        st, 'where')
        self.count('variable data copies', inst)
        if X.isk(n) and n.a == 4 and 'fresh' not in a and saturate(st, self.room4(st)) is not False:
            self.report(eng, inst, 'the length of variable data may reach over the end of the page', st, 'length-room')
        eng.ghost(st, 'exp', X.add(eng.ghost(st, 'exp'), n))
        st.auto = put(st.auto, n=1, fresh=None)

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        sl = s.slot_of(addr)
        if sl is not None:
            if sl[0] in (2, 4) and not X.isk(sl[1]):
                self.on_copy(eng, st, inst, addr, None, K(size))
            return
        if s.field(addr) == 'currentVarLoc':
            self.count('cursor updates', inst)
            a = items(st.auto)
            if 'n' in a and st.eq(val, eng.ghost(st, 'exp')):
                eng.ghost(st, 'exp', val)
                st.auto = put(st.auto, n=None)
            if 'adv' in a and self.advanced(eng, st, val):
                eng.ghost(st, 'exp', val)
                st.auto = put(st.auto, adv=None, n=None, fresh=1)

    def on_ret(self, eng, st, inst, val):
        if val is not None and st.known(X.eq(val, K(0))) is False:
            return
        self.sync(eng, st, inst, lambda m, k: self.report(eng, inst, '%s returns success although %s' % (eng.fn.name, m), st, 'ret-' + k))


# ---------------------------------------------------------------- P47, P48
def saturate(st, p):
    """derive the comparison p (x <u y) from two known ones"""
    t = st.known(p)
    if t is None and p.k == 'eq':
        d = p.a[0]
        for f, (lo, hi, _) in list(st.bd.items()):
            if lo == hi == 0:
                for sg in (1, -1):
                    r = X.sub(d, X.scale(f, sg))
                    l, h = (r.a, r.a) if X.isk(r) else st.bounds(r)[:2]
                    if l == h == 0:
                        st.assume(p, True)
                        return True
    if t is not None or p.k not in ('ltu', 'lts'):
        return t
    d = X.sub(p.a[0], p.a[1])
    for f, (lo, hi, _) in list(st.bd.items()):
        for sg in (1, -1):
            l, h = (lo, hi) if sg > 0 else (-hi, -lo)
            r = X.sub(d, X.scale(f, sg))
            if len(X.terms(r)[1]) > 4:
                continue
            rl, rh, _ = st.bounds(r)
            if rh + h <= -1:
                st.assume(p, True)
                return True
            if rl + l >= 0:
                st.assume(p, False)
                return False
    return None


class VarContent(VarCursor):
    """the length and then all bytes of the variable data are placed in order, inside the page, with the key in the page header"""
    name = 'var-content'
    linrel = True
    NOINLINE = ANCHORS + ['embedDBPut', 'writeVariablePage']
    SUMMARY = ('embedDBPut', 'writeVariablePage')

    def begin(self, eng, st):
        self.key, self.var, self.len = param(eng, 1), param(eng, 3), param(eng, 4)
        eng.ghost(st, 'done', K(0))
        eng.ghost(st, 'cur', self.s.entry('currentVarLoc'))
        st.auto = ()

    def on_file(self, eng, st, ev):
        if ev.info['file'] == 'varFile' and ev.name == 'write' and ev.res.a == 1:
            self.count('variable data page writes', ev.inst)
            if 'dirty' in items(st.auto):
                self.report(eng, ev.inst, 'a variable-data page is written without the key of the data on it in its header', st, 'header')

    def on_call(self, eng, st, ev):
        if ev.kind != 'fn' or ev.name not in self.SUMMARY:
            return None
        if ev.name == 'embedDBPut':
            self.count('inserts', ev.inst)
            if not (ev.args[1] is self.key):
                self.report(eng, ev.inst, 'the record inserted has key %s' % X.show(ev.args[1]), st, 'record')
            if 'L' in items(st.auto):
                self.report(eng, ev.inst, 'the record is inserted after its variable data', st, 'record-order')
            s2 = st.copy()
            s2.env[ev.inst.res] = ev.res = K(0)
            eng.note(s2, ev.inst, 'embedDBPut succeeds')
            st.env[ev.inst.res] = K(-1)
            s2.auto = put(s2.auto, R=1)
            ev.res = K(-1)
            return [s2, st]
        self.count('variable data page writes', ev.inst)
        sl = self.s.slot_of(ev.args[1])
        if sl is None or sl[0] != self.wslot(st):
            return None
        if 'dirty' in items(st.auto):
            self.report(eng, ev.inst, 'a variable-data page is written without the key of the data on it in its header', st, 'header')
        return None

    def on_fill(self, eng, st, inst, dst, byte, n):
        sl = self.s.slot_of(dst)
        if sl and sl[0] == self.wslot(st):
            if 'dirty' in items(st.auto):
                self.report(eng, inst, 'the variable-data page is cleared while it holds data', st, 'cleared')
            st.auto = put(st.auto, h=None)

    def lims(self, eng, st):
        s = self.s
        P = s.entry('pageSize')
        return (X.sub(self.len, eng.ghost(st, 'done')), X.sub(P, X.binop('urem', s.now(st, 'currentVarLoc'), P, 32)))

    def preds(self, eng, st):
        if eng.kb in eng.fi.loops:
            return []
        a, b = self.lims(eng, st)
        out = [X.ltu(b, a), X.ltu(a, b), X.eq(self.len, eng.ghost(st, 'done'))]
        for p in out:
            saturate(st, p)
        return out

    def keep(self, eng, st):
        over = X.ltu(self.len, eng.ghost(st, 'done'))
        saturate(st, over)
        return [over]

    def placed(self, st):
        st.auto = put(st.auto, dirty=None if 'h' in items(st.auto) else 1)

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        r, off = eng.split(dst)
        sl = s.slot_of(dst)
        if sl is None or sl[0] != self.wslot(st):
            return
        rep = lambda m, k: self.report(eng, inst, m, st, k)
        if X.isk(sl[1]):
            if sl[1].a == 4:
                self.count('header keys', inst)
                if src is not self.key or n is not s.entry('keySize'):
                    rep('the header of the variable-data page gets %s bytes of %s' % (X.show(n), X.show(src)), 'header-key')
                else:
                    st.auto = put(st.auto, h=1, dirty=None)
            return
        sr, so = eng.split(src)
        if sr is self.var:
            self.count('variable data copies', inst)
            done = eng.ghost(st, 'done')
            if not st.eq(so, done):
                rep('variable data is copied from offset %s' % X.show(so), 'src')
            if 'L' not in items(st.auto):
                rep('variable data is placed before its length', 'order')
            full = n
            while full.k == 'tr':
                full = full.a[0]
            for what, lim in zip(('variable data', 'page'), self.lims(eng, st)):
                if saturate(st, X.ltu(lim, full)) is not False:
                    rep('%s bytes of variable data may be placed, more than the %s has left' % (X.show(n), what), 'bound:' + what)
            eng.ghost(st, 'done', X.add(done, n))
            self.placed(st)
        elif X.isk(n) and n.a == 4:
            self.on_store(eng, st, inst, dst, 4, eng.load(st, src, 4), None)
        else:
            rep('%s bytes of %s are placed in the variable-data page' % (X.show(n), X.show(src)), 'stray')

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        sl = s.slot_of(addr)
        if sl is None or sl[0] != self.wslot(st) or X.isk(sl[1]):
            return
        self.count('lengths placed', inst)
        rep = lambda m, k: self.report(eng, inst, m, st, k)
        if size != 4 or val is not self.len:
            rep('%s is placed as length of the variable data' % X.show(val), 'len')
        d = eng.ghost(st, 'done')
        if 'L' in items(st.auto) or not (X.isk(d) and d.a == 0):
            rep('the length of the variable data is not placed once in front of it', 'order')
        st.auto = put(st.auto, L=1)
        self.placed(st)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        rep = lambda m, k: self.report(eng, inst, 'embedDBPutVar can return success although %s' % m, st, k)
        if 'R' not in items(st.auto):
            rep('the record was not inserted', 'missing-record')
        if st.known(X.eq(self.var, K(0))) is True:
            return
        a = items(st.auto)
        if 'L' not in a:
            rep('the length of the variable data was not placed', 'missing-len')
        d = eng.ghost(st, 'done')
        if not st.eq(d, self.len):
            rep('%s bytes of variable data were placed' % X.show(d), 'missing-data')
        if 'dirty' in a:
            rep('the header of the variable-data page does not have the key', 'header')


class VarReclaim(DBRule):
    """erasing variable data moves the first key with variable data past the last one erased"""
    name = 'var-reclaim'
    flags_needed = frozenset((F_INDEX,))
    NOINLINE = ANCHORS + ['embedDBPut']     # analysed as an entry of its own
    SUMMARY = ('embedDBPut',)

    def begin(self, eng, st):
        st.auto = ()
        self.n0 = None

    def rslot(self, st):
        i = self.s.flag(st, F_INDEX)
        return {5} if i else {3} if i is False else {3, 5}

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        a = items(st.auto)
        sl = s.slot_of(src)
        m = s.addr('minVarRecordId')
        K_ = s.entry('keySize')
        if sl is not None and sl[0] in self.rslot(st) and X.isk(sl[1]) and sl[1].a == 4:
            E, N = s.entry('eraseSizeInPages'), s.entry('numVarPages')
            phys = X.binop('urem', s.now(st, 'nextVarPageId'), N, 32)
            want = X.binop('urem', X.sub(X.add(phys, E), K(1)), N, 32)
            self.count('last erased keys read', inst)
            if 'late' in a:
                self.report(eng, inst, 'the last key erased is read from storage after it was erased', st, 'late')
            if not st.eq(s.now(st, 'bufferedVarPage'), want):
                self.report(eng, inst, 'the last key erased is read from page %s' % X.show(s.now(st, 'bufferedVarPage')), st, 'which')
            if n is not K_:
                self.report(eng, inst, '%s bytes of the last key erased are read' % X.show(n), st, 'size')
            st.auto = put(st.auto, k=dst, inc=None)
            return
        if dst is m:
            if 'k' in a and src is a['k']:
                self.count('first key updates', inst)
                if 'inc' not in a:
                    self.report(eng, inst, 'the first key with variable data becomes one that was erased', st, 'inc')
                if n is not K_ and not (X.isk(n) and n.a == 8):
                    self.report(eng, inst, '%s bytes of the first key with variable data are set' % X.show(n), st, 'size')
                st.auto = put(st.auto, er=None, set=None if 'er' in a else 1)
            elif eng.fn.name == 'embedDBPutVar' and src is eng.params[1]:
                self.count('first key set', inst)
                if st.known(X.eq(s.now(st, 'minVarRecordId'), K(-1))) is not True:
                    self.report(eng, inst, 'the first key with variable data is set to a new key although older variable data exists', st, 'first')
                elif n is not K_:
                    self.report(eng, inst, '%s bytes of the first key with variable data are set' % X.show(n), st, 'size')
            else:
                self.report(eng, inst, 'the first key with variable data is set from %s' % X.show(src), st, 'from')

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        if val.k == 'blob':
            return                  # seen as a copy
        a = items(st.auto)
        if 'k' in a and addr is a['k']:
            if X.isk(val) and val.a == 0 and addr is not s.addr('minVarRecordId'):
                st.auto = put(st.auto, k=None, inc=None)        # the local variable is initialised again
                return
            if old is None:
                # the content after a copy of keySize bytes
                c = [l for l in val.leaves]
                ok = len(X.terms(val)[1]) == 1 and X.terms(val)[0] == 1
            else:
                ok = st.eq(val, X.add(old, K(1)))
            if ok:
                st.auto = put(st.auto, inc=1)
                if addr is s.addr('minVarRecordId'):
                    self.count('first key updates', inst)
                    st.auto = put(st.auto, er=None, set=None if 'er' in a else 1)
            else:
                self.report(eng, inst, 'the first key with variable data becomes %s' % X.show(val), st, 'inc')
            return
        if s.field(addr) == 'minVarRecordId':
            self.report(eng, inst, 'the first key with variable data becomes %s' % X.show(val), st, 'from')

    def on_file(self, eng, st, ev):
        if ev.info['file'] != 'varFile' or ev.res.a != 1:
            return
        a = items(st.auto)
        if ev.name == 'read' and 'er' in a:
            st.auto = put(st.auto, late=1)
        elif ev.name == 'erase':
            self.count('erases', ev.inst)
            st.auto = put(st.auto, er=None if 'set' in a else 1, set=None)
        elif ev.name == 'write':
            if 'er' in a:
                self.report(eng, ev.inst, 'variable data was erased but the first key with variable data was not moved', st, 'missing')
            st.auto = put(st.auto, er=None, late=None)

    def on_ret(self, eng, st, inst, val):
        if 'set' in items(st.auto):
            self.report(eng, inst, 'the first key with variable data moves although nothing was erased', st, 'unerased')


class VarNotEmpty(DBRule):
    """a page of variable data is written only when it holds data"""
    name = 'var-not-empty'
    flags_needed = frozenset((F_INDEX,))
    NOINLINE = ANCHORS + ['embedDBPut']
    SUMMARY = ('embedDBPut',)

    def begin(self, eng, st):
        st.auto = ()

    def some(self, st):
        s = self.s
        P = s.entry('pageSize')
        r = X.binop('urem', s.now(st, 'currentVarLoc'), P, 32)
        return st.known(X.eq(r, s.entry('variableDataHeaderSize'))) is False or saturate(st, X.ltu(X.sub(P, K(4)), r)) is True

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.on_copy(eng, st, inst, addr, None, None)

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        to = s.slot_of(dst)
        i = s.flag(st, F_INDEX)
        if to is not None and to[0] in ({4} if i else {2} if i is False else {2, 4}) and X.terms(to[1])[1]:
            st.auto = put(st.auto, data=1)

    def on_file(self, eng, st, ev):
        if ev.info['file'] == 'varFile' and ev.name == 'write' and ev.res.a == 1:
            self.count('page writes', ev.inst)
            if 'data' not in items(st.auto) and not self.some(st):
                self.report(eng, ev.inst, 'a variable data page may be written that holds no data (and no key)', st, 'empty')
            st.auto = ()

    def on_ret(self, eng, st, inst, val):
        pass


# ---------------------------------------------------------------- P48
class PageIndexed(DBRule):
    """every data page written gets one entry in the bitmap index and a point in the spline"""
    name = 'page-indexed'
    flags_needed = frozenset((F_BIN,))

    # auto: W a page was written, E / C / S its entry was copied / counted / its point added; N: an index page was written,
    # 1 its buffer has to be cleared, 2 its first page has to be set
    def begin(self, eng, st):
        s = self.s
        st.assume(X.eq(s.entry('indexFile'), K(0)), not self.withindex)
        st.assume(X.eq(X.binop('and', s.entry('parameters'), K(F_INDEX), 32), K(0)), not self.withindex)
        st._add(s.entry('maxIdxRecordsPerPage'), 1, None, None)
        eng.ghost(st, 'wid', K(0))
        eng.ghost(st, 'cnt', K(0))
        st.auto = ()

    def rep(self, eng, st, inst, msg, key):
        self.report(eng, inst, '%s (entry %s)' % (msg, eng.fn.name), st, key)

    withindex = False         # an index file is there exactly if the flag is set

    def hasindex(self, st):
        return self.withindex

    def keep(self, eng, st):
        mx = self.s.entry('maxIdxRecordsPerPage')
        out = []
        for c in (self.s.count(st, 2), eng.ghost(st, 'cnt')):
            p = X.ltu(c, mx)
            if not X.isk(p) or p.a:
                saturate(st, p)
                out.append(p)
        return out

    def settle(self, eng, st, inst, when):
        a = items(st.auto)
        if 'W' not in a:
            return
        if self.hasindex(st):
            if 'E' not in a:
                self.rep(eng, st, inst, '%s although the data page written got no entry in the index' % when, 'no-entry')
            if 'C' not in a:
                self.rep(eng, st, inst, '%s although the entry of the data page written was not counted' % when, 'no-count')
        if self.s.flag(st, F_BIN) is not True and 'S' not in a:
            self.rep(eng, st, inst, '%s although the data page written was not added to the spline' % when, 'no-point')
        st.auto = put(st.auto, W=None, E=None, C=None, S=None)

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        if ev.name != 'write' or ev.res.a != 1:
            return
        a = items(st.auto)
        if f == 'dataFile' and perm_or_temp(self, st, ev) == 'perm':
            self.count('permanent data page writes', ev.inst)
            self.settle(eng, st, ev.inst, 'another data page is written')
            if 'N' in a:
                self.rep(eng, st, ev.inst, 'a data page is written before the new index page was set up', 'index-page')
            eng.ghost(st, 'wid', self.s.pageid(st, 0))
            eng.ghost(st, 'cnt', self.s.count(st, 2))
            st.auto = put(st.auto, W=1)
        elif f == 'indexFile':
            self.count('index page writes', ev.inst)
            if 'W' in a and ('E' not in a or 'C' not in a):
                self.rep(eng, st, ev.inst, 'an index page is written before the data page written got its entry', 'entry-late')
            st.auto = put(st.auto, N=1)

    def on_fill(self, eng, st, inst, dst, byte, n):
        sl = self.s.slot_of(dst)
        if sl is None:
            return
        if sl[0] == 0:
            self.settle(eng, st, inst, 'the write buffer is cleared')
        elif sl[0] == 2 and self.hasindex(st):
            if 'N' not in items(st.auto):
                self.rep(eng, st, inst, 'the index buffer is cleared although its entries were not written', 'index-cleared')
            else:
                st.auto = put(st.auto, N=2)

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s
        sl = s.slot_of(dst)
        if sl is None or sl[0] != 2 or not self.hasindex(st):
            return
        if X.isk(sl[1]):
            if X.isk(n):
                self.on_store(eng, st, inst, dst, n.a, eng.load(st, src, n.a), None)
            return
        a = items(st.auto)
        self.count('index entries', inst)
        rep = lambda m, k: self.rep(eng, st, inst, m, k)
        if 'W' not in a or 'E' in a:
            rep('an index entry is added without a data page being written', 'entry-extra')
            return
        if 'N' in a:
            rep('an index entry is added before the new index page was set up', 'index-page')
        if src is not s.slotaddr(0, 6):
            rep('the index entry is copied from %s, not from the bitmap of the page written' % X.show(src), 'entry-src')
        if not st.eq(X.tr(n, 8), X.tr(s.entry('bitmapSize'), 8)):
            rep('%s bytes are copied into the index entry' % X.show(n), 'entry-size')
        i = eng.ghost(st, 'cnt')
        if not st.eq(dst, X.add(s.slotaddr(2, 16), X.mul(i, s.entry('bitmapSize')))):
            rep('the index entry is put at %s, not behind the last entry' % X.show(dst), 'entry-where')
        self.room(eng, st, inst, i)
        st.auto = put(st.auto, E=1)

    def room(self, eng, st, inst, i):
        if saturate(st, X.ltu(i, self.s.entry('maxIdxRecordsPerPage'))) is not True:
            self.rep(eng, st, inst, 'an entry is added to an index page that may be full', 'entry-room')

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s
        sl = s.slot_of(addr)
        if sl is None or sl[0] != 2 or not self.hasindex(st) or val.k == 'blob':
            return
        a = items(st.auto)
        rep = lambda m, k: self.rep(eng, st, inst, m, k)
        if not X.isk(sl[1]):
            self.on_copy(eng, st, inst, addr, None, K(size))
            return
        if sl[1].a == 4 and size == 2:
            if X.isk(val) and val.a == 0:
                if 'N' not in a:
                    rep('the index entries are no longer counted although they were not written', 'index-cleared')
                return
            self.count('index entries counted', inst)
            if 'W' not in a or 'C' in a:
                rep('an index entry is counted without a data page being written', 'count-extra')
                return
            if not st.eq(X.tr(val, 16), X.tr(X.add(eng.ghost(st, 'cnt'), K(1)), 16)):
                rep('the number of index entries becomes %s' % X.show(val), 'count')
            st.auto = put(st.auto, C=1)
        elif sl[1].a == 8 and size == 4:
            self.count('first pages set', inst)
            if 'N' not in a:
                rep('the first data page of an index page is changed', 'first-page')
            elif 'W' in a and ('E' not in a or 'C' not in a) or not st.eq(val, s.now(st, 'nextDataPageId')):
                rep('the first data page of the new index page is %s, not the next data page' % X.show(val), 'first-page')
            elif a['N'] == 2:
                st.auto = put(st.auto, N=None)

    def on_call(self, eng, st, ev):
        if ev.kind != 'fn' or ev.name != 'splineAdd':
            return
        s = self.s
        a = items(st.auto)
        self.count('spline points', ev.inst)
        rep = lambda m, k: self.rep(eng, st, ev.inst, m, k)
        if 'W' not in a or 'S' in a:
            rep('a spline point is added without a data page being written', 'point-extra')
            return
        if ev.args[0] is not s.entry('spl') or not st.eq(ev.args[1], X.add(s.slotaddr(0), s.entry('headerSize'))):
            rep('the key of the spline point is %s, not the first key of the page written' % X.show(ev.args[1]), 'point-key')
        if not st.eq(X.tr(ev.args[2], 32), X.tr(eng.ghost(st, 'wid'), 32)):
            rep('the spline point leads to page %s, not to the page written' % X.show(ev.args[2]), 'point-page')
        st.auto = put(st.auto, S=1)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        self.count('success exits', inst)
        self.settle(eng, st, inst, '%s returns success' % eng.fn.name)
        if 'N' in items(st.auto):
            self.rep(eng, st, inst, 'the index page that follows the one written was not set up', 'index-page')


class PageIndexedBitmap(PageIndexed):
    withindex = True
