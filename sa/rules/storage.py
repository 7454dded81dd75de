"""Rules about the storage layer: failure propagation, page accounting, read
cache, placement/erase, flush durability, write ordering."""
from .. import expr as X
from ..expr import K, LD
from ..base import *

PUTS = ['embedDBPut', 'embedDBPutVar']
FLUSHES = ['embedDBFlush', 'embedDBFlushVar']
WRITERS = PUTS + FLUSHES


# ---------------------------------------------------------------- P01
class FailureReported(DBRule):
    """a storage operation that failed makes the API call report failure"""
    name = 'failure-reported'
    SUCCESS = {'embedDBPut': (0,), 'embedDBPutVar': (0,), 'embedDBFlush': (0,), 'embedDBFlushVar': (0,),
               'embedDBGet': (0,), 'embedDBGetVar': (0, 1), 'embedDBNext': (1,), 'embedDBNextVar': (1,),
               'embedDBInit': (0,), 'embedDBVarDataStreamRead': None}

    def preset(self, eng, st):
        if eng.fn.name != 'embedDBInit':
            DBRule.preset(self, eng, st)

    def begin(self, eng, st):
        st.auto = None

    def on_file(self, eng, st, ev):
        op, f = ev.name, ev.info['file']
        self.count('storage operations', ev.inst)
        if eng.fn.name == 'embedDBInit':
            if op in ('read', 'close'):
                return
            if op == 'open':
                # opening an existing file may fail; then the file must be created instead
                if X.isk(ev.res) and ev.res.a == 1:
                    if st.auto and st.auto[0] == 'open' and st.auto[1] == f:
                        st.auto = None
                    return
        if op == 'close':
            return
        if ev.res.a == 0 and st.auto is None:
            st.auto = (op, f, ev.inst)

    def on_ret(self, eng, st, inst, val):
        if st.auto is None:
            return
        op, f, at = st.auto
        ok = self.SUCCESS[eng.fn.name]
        if ok is None:
            if val is not None and st.known(X.eq(val, K(0))) is not True:
                self.report(eng, at, 'a failed %s of %s can be followed by %s returning a non-zero byte count' % (op, f, eng.fn.name),
                            st, '%s:%s:%s' % (op, f, eng.m.srcfunc(at)))
            return
        for k in ok:
            if val is not None and st.known(X.eq(val, K(k))) is not False:
                self.report(eng, at, 'a failed %s of %s is not reported: %s can still return %d (success) at %s'
                            % (op, f, eng.fn.name, k, eng.m.locstr(inst)), st, '%s:%s:%s' % (op, f, eng.m.srcfunc(at)))
                return


# ---------------------------------------------------------------- failed read contents
class FailedReadUnused(DBRule):
    """what a failed read left in a page buffer is never used"""
    name = 'failed-read-unused'

    def preset(self, eng, st):
        if eng.fn.name != 'embedDBInit':
            DBRule.preset(self, eng, st)

    def begin(self, eng, st):
        st.auto = ()

    def slotno(self, addr):
        s = self.s.slot_of(addr)
        return s[0] if s else None

    def on_file(self, eng, st, ev):
        if ev.name != 'read':
            if ev.name == 'write':
                self.use(eng, st, ev.inst, ev.args[0])
            return
        self.count('read operations', ev.inst)
        n = self.slotno(ev.args[0])
        if n is None:
            return
        a = {x for x in st.auto if x[0] != n}
        if ev.res.a == 0:
            a.add((n, ev.inst))
        st.auto = tuple(sorted(a, key=lambda x: (x[0], x[1].id)))

    def use(self, eng, st, inst, addr):
        if not st.auto:
            return
        n = self.slotno(addr)
        for k, at in st.auto:
            if k == n:
                self.report(eng, inst, 'page buffer slot %d is used although the read at %s that was to fill it failed'
                            % (n, eng.m.locstr(at)), st, 'use:%s:%s' % (eng.m.srcfunc(inst), eng.m.srcfunc(at)))

    def on_load(self, eng, st, inst, addr, size, val):
        if st.auto:
            self.use(eng, st, inst, addr)

    def on_copy(self, eng, st, inst, dst, src, n):
        if st.auto:
            self.use(eng, st, inst, src)
            d = self.s.slot_of(dst)
            if d and X.isk(d[1]) and d[1].a == 0 and fieldname(n.a[0]) == 'pageSize' if n.k == 'ld' else False:
                st.auto = tuple(x for x in st.auto if x[0] != d[0])

    def on_call(self, eng, st, ev):
        if st.auto:
            for a in ev.args:
                self.use(eng, st, ev.inst, a)

    def on_fill(self, eng, st, inst, dst, byte, n):
        d = self.s.slot_of(dst)
        if d and st.auto:
            st.auto = tuple(x for x in st.auto if x[0] != d[0])


# ---------------------------------------------------------------- P02 / P12 accounting
class Accounting(DBRule):
    """page ids, free-page counts and reclaimed pages move together"""
    name = 'accounting'
    flags_needed = frozenset((F_RLC,))

    def begin(self, eng, st):
        s = self.s
        z = K(0)
        # per file: (delta next id, delta avail, delta min, writes, erases)
        st.auto = tuple((f, (z, z, z, z, z)) for f in FILES)

    def upd(self, st, f, i, d):
        out = []
        for g, t in st.auto:
            if g == f:
                t = tuple(X.add(x, d) if j == i else x for j, x in enumerate(t))
            out.append((g, t))
        st.auto = tuple(out)

    def on_store(self, eng, st, inst, addr, size, val, old):
        n = self.s.field(addr)
        if n is None:
            return
        for f, d in FILES.items():
            for i, k in enumerate(('next', 'avail', 'min')):
                if d[k] == n:
                    if old is None:
                        old = self.s.entry(n)
                    self.upd(st, f, i, X.sub(val, old))
                    self.count('counter updates', inst)
                    self.norm(eng, st, f)

    def norm(self, eng, st, f):
        """fold balanced movements so that the typestate stays finite"""
        out = []
        E = self.s.entry('eraseSizeInPages')
        for g, (dn, da, dm, w, e) in st.auto:
            if g == f and X.isk(dn) and X.isk(w) and dn.a == w.a and dn.a != 0:
                # n pages written and n ids consumed: fold them, leaving the imbalance of the others
                da2 = X.add(da, w)
                if X.isk(da2) or not (da2.leaves - da.leaves):
                    da, dn, w = da2, K(0), K(0)
            out.append((g, (dn, da, dm, w, e)))
        st.auto = tuple(out)
        # fold reclaimed blocks
        out = []
        for g, (dn, da, dm, w, e) in st.auto:
            if g == f and X.isk(e) and e.a > 0:
                if FILES[g]['min']:
                    if dm is X.scale(E, e.a):
                        d2 = X.sub(da, dm)
                        da, dm, e = d2, K(0), K(0)
                else:
                    d2 = X.sub(da, X.scale(E, e.a))
                    if X.isk(d2):
                        da, e = d2, K(0)
            out.append((g, (dn, da, dm, w, e)))
        st.auto = tuple(out)

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        if f not in FILES or ev.res.a != 1:
            return
        if ev.name == 'write':
            if perm_or_temp(self, st, ev) == 'perm':
                self.count('permanent page writes', ev.inst)
                self.upd(st, f, 3, K(1))
                self.norm(eng, st, f)
        elif ev.name == 'erase':
            lf = leaf_fields(ev.args[0])
            if not (lf & {'rlcPhysicalStartingPage', 'nextRLCPhysicalPageLocation'}):
                self.count('block erases', ev.inst)
                self.upd(st, f, 4, K(1))
                self.norm(eng, st, f)

    part = 'ids'

    def on_ret(self, eng, st, inst, val):
        E = self.s.entry('eraseSizeInPages')
        for f, (dn, da, dm, w, e) in st.auto:
            d = FILES[f]
            if self.part == 'ids':
                if X.sub(dn, w) is not K(0):
                    self.report(eng, inst, '%s: %s advances by %s while %s %s page(s) were written successfully'
                                % (eng.fn.name, d['next'], X.show(dn), X.show(w), d['what']), st,
                                'ids:%s' % f)
                continue
            bal = X.add(da, w)
            if d['min']:
                bal = X.sub(bal, dm)
            else:
                bal = X.sub(bal, X.scale(E, e.a) if X.isk(e) else X.mul(E, e))
            if X.sub(dn, w) is K(0) and bal is not K(0):
                self.report(eng, inst, '%s: after writing %s %s page(s) with %s advancing by %s, %s changes by %s'
                            % (eng.fn.name, X.show(w), d['what'], d['min'] or 'erased space', X.show(dm), d['avail'], X.show(da)), st,
                            'free:%s' % f)
            if d['min'] and self.s.flag(st, F_RLC) is not True or f == 'indexFile':
                if X.sub(dm, X.scale(E, e.a) if X.isk(e) else X.mul(E, e)) is not K(0):
                    self.report(eng, inst, '%s: %s advances by %s although %s block(s) of the %s file were erased'
                                % (eng.fn.name, d['min'], X.show(dm), X.show(e), d['what']), st, 'min:%s' % f)
            elif d['min'] and f == 'dataFile':
                # record-level consistency: whole blocks only
                c, t = X.terms(dm)
                if c or any(x is not E for x in t):
                    self.report(eng, inst, '%s: %s advances by %s, not by whole erase blocks' % (eng.fn.name, d['min'], X.show(dm)), st,
                                'min:%s' % f)


class PageIds(Accounting):
    part = 'ids'


class FreeSpace(Accounting):
    part = 'free'


# ---------------------------------------------------------------- P03 cache
CACHES = {'bufferedPageId': ('dataFile', (1,)), 'bufferedIndexPageId': ('indexFile', (3,)), 'bufferedVarPage': ('varFile', (3, 5))}


class CacheCoherent(DBRule):
    """the page id remembered for a read buffer names the page it holds"""
    name = 'cache-coherent'

    def preset(self, eng, st):
        if eng.fn.name != 'embedDBInit':
            DBRule.preset(self, eng, st)

    def begin(self, eng, st):
        st.auto = ()

    def cache_of_file(self, f):
        for c, (g, _) in CACHES.items():
            if f == g:
                return c

    def cache_of_slot(self, st, n):
        if n == 1:
            return 'bufferedPageId'
        if n == 5:
            return 'bufferedVarPage'
        if n == 3:
            idx = self.s.flag(st, F_INDEX)
            if idx is True:
                return 'bufferedIndexPageId'
            if idx is False:
                return 'bufferedVarPage'
            return None
        return None

    def addp(self, st, p):
        a = set(st.auto)
        a.add(p)
        st.auto = tuple(sorted(a, key=lambda x: tuple(y.id if hasattr(y, 'id') else str(y) for y in x).__repr__()))

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        c = self.cache_of_file(f)
        if c is None:
            return
        cur = self.s.now(st, c)
        if ev.name in ('write', 'erase'):
            self.count('writes and erases', ev.inst)
            if X.isk(cur) and cur.a == -1:
                return
            if ev.name == 'write':
                if st.ne(cur, ev.args[1]):
                    return
                self.addp(st, ('stale', c, ev.args[1], ev.inst))
            elif ev.res.a == 1:
                if st.known(X.ltu(cur, ev.args[0])) is True or st.known(X.ltu(cur, ev.args[1])) is False:
                    return
                self.addp(st, ('range', c, ev.args[0], ev.args[1], ev.inst))
        elif ev.name == 'read':
            self.count('reads', ev.inst)
            sl = self.s.slot_of(ev.args[0])
            if sl is None:
                return
            if sl[0] not in CACHES[c][1] or not (X.isk(sl[1]) and sl[1].a == 0):
                self.report(eng, ev.inst, 'a page of %s is read into page buffer slot %s' % (f, sl[0]), st, 'slot:%s' % f)
            st.auto = tuple(x for x in st.auto if not (x[0] in ('clob', 'loaded') and x[1] == c))
            self.addp(st, ('clob', c, ev.inst))
            if ev.res.a == 1:
                self.addp(st, ('loaded', c, ev.args[1]))

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.s.slot_of(dst)
        if s is None:
            return
        c = self.cache_of_slot(st, s[0])
        if c is None:
            return
        cur = self.s.now(st, c)
        self.count('copies into read buffers', inst)
        if X.isk(cur) and cur.a == -1:
            return
        self.addp(st, ('clob', c, inst))

    def on_fill(self, eng, st, inst, dst, byte, n):
        self.on_copy(eng, st, inst, dst, None, n)

    def on_store(self, eng, st, inst, addr, size, val, old):
        n = self.s.field(addr)
        if n not in CACHES:
            s = self.s.slot_of(addr)
            if s is not None:
                c = self.cache_of_slot(st, s[0])
                if c and not (X.isk(self.s.now(st, c)) and self.s.now(st, c).a == -1):
                    self.addp(st, ('clob', c, inst))
            return
        self.count('cache id updates', inst)
        if X.isk(val) and val.a in (-1, 4294967295):
            st.auto = tuple(x for x in st.auto if x[1] != n)
            return
        ok = [x for x in st.auto if x[0] == 'loaded' and x[1] == n and st.eq(x[2], val)]
        if ok:
            st.auto = tuple(x for x in st.auto if x[1] != n)
            return
        if old is not None and st.eq(val, old):
            return
        self.report(eng, inst, '%s is set to %s, which is not the page just read into that buffer' % (n, X.show(val)), st, 'id:%s' % n)

    def on_assume(self, eng, st, inst):
        if not st.auto:
            return
        keep = []
        for x in st.auto:
            cur = self.s.now(st, x[1])
            if x[0] == 'stale':
                if st.ne(cur, x[2]) or st.eq(cur, K(-1)):
                    continue
            elif x[0] == 'range':
                if st.known(X.ltu(cur, x[2])) is True or st.known(X.ltu(cur, x[3])) is False or st.eq(cur, K(-1)):
                    continue
            elif x[0] == 'clob' and st.eq(cur, K(-1)):
                continue
            keep.append(x)
        st.auto = tuple(keep)

    def on_ret(self, eng, st, inst, val):
        self.on_assume(eng, st, inst)
        for x in st.auto:
            if x[0] == 'stale':
                self.report(eng, x[3], '%s may still name physical page %s after that page is overwritten (entry %s): later reads are served stale contents'
                            % (x[1], X.show(x[2]), eng.fn.name), st, 'stale:%s:%s' % (x[1], eng.m.srcfunc(x[3])))
            elif x[0] == 'range':
                self.report(eng, x[4], '%s may still name a page of the erased range [%s, %s) (entry %s)'
                            % (x[1], X.show(x[2]), X.show(x[3]), eng.fn.name), st, 'erased:%s:%s' % (x[1], eng.m.srcfunc(x[4])))
            elif x[0] == 'clob':
                self.report(eng, x[2], 'the read buffer is overwritten but %s keeps naming the page it held before (entry %s)'
                            % (x[1], eng.fn.name), st, 'clob:%s:%s' % (x[1], eng.m.srcfunc(x[2])))


# ---------------------------------------------------------------- P04 placement / erase before reuse
class Placement(DBRule):
    """where and with which header a page is written; erase before reuse"""
    name = 'placement'
    WSLOT = {'dataFile': (0,), 'indexFile': (2,), 'varFile': (2, 4)}

    def begin(self, eng, st):
        st.auto = ()

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        s = self.s
        if ev.name not in ('write', 'erase'):
            return
        if f not in FILES:
            raise Broken('storage operation on an unidentified file at %s' % eng.m.locstr(ev.inst))
        d = FILES[f]
        num, E = s.entry(d['num']), s.entry('eraseSizeInPages')
        rep = lambda msg, k: self.report(eng, ev.inst, '%s (entry %s)' % (msg, eng.fn.name), st, k + ':' + f)
        if ev.name == 'erase':
            self.count('erases', ev.inst)
            start, end = ev.args[0], ev.args[1]
            if not st.eq(X.sub(end, start), E):
                rep('erase of %s covers [%s, %s): not exactly one erase block' % (f, X.show(start), X.show(end)), 'erase-size')
            if not st.eq(ev.args[2], s.entry('pageSize')):
                rep('erase of %s with page size %s' % (f, X.show(ev.args[2])), 'erase-pagesize')
            lf = leaf_fields(start)
            if lf & {'rlcPhysicalStartingPage', 'nextRLCPhysicalPageLocation'}:
                return
            nxt = s.now(st, d['next'])
            cands = [X.binop('urem', nxt, num, 32), X.binop('urem', X.sub(nxt, K(1)), num, 32)]
            if start not in cands:
                rep('erase of %s starts at %s, not at the block about to be written' % (f, X.show(start)), 'erase-start')
            if ev.res.a == 1:
                st.auto = tuple(x for x in st.auto if x[1] != f) + (('erased', f, start),)
            return
        self.count('writes', ev.inst)
        if not st.eq(ev.args[2], s.entry('pageSize')):
            rep('page of %s written with size %s instead of the page size' % (f, X.show(ev.args[2])), 'size')
        sl = s.slot_of(ev.args[0])
        if sl is None or sl[0] not in self.WSLOT[f] or not (X.isk(sl[1]) and sl[1].a == 0):
            rep('page of %s is written from %s, not from its write buffer' % (f, X.show(ev.args[0])), 'buffer')
            return
        if f == 'varFile':
            want = 4 if s.flag(st, F_INDEX) else 2
            if s.flag(st, F_INDEX) is None or want != sl[0]:
                rep('variable-data page written from slot %d with index %s' % (sl[0], s.flag(st, F_INDEX)), 'buffer')
        hdr = s.pageid(st, sl[0])
        kind = perm_or_temp(self, st, ev)
        nxt = s.now(st, d['next'])
        if kind == 'temp':
            if not st.eq(hdr, nxt):
                rep('temporary page carries id %s instead of the id its permanent page will get' % X.show(hdr), 'tempid')
            return
        if not (st.eq(hdr, nxt) or st.eq(X.add(hdr, K(1)), nxt)):
            rep('the page id in the header is %s, not the page number consumed' % X.show(hdr), 'hdr')
        if not st.eq(ev.args[1], X.binop('urem', hdr, num, 32)):
            rep('page %s is written at physical page %s, not at its number modulo %s' % (X.show(hdr), X.show(ev.args[1]), d['num']), 'where')
        # erase before reuse
        av = s.now(st, d['avail'])
        if st.known(X.eq(av, K(0))) is not False:
            rep('page written although free space may be exhausted and no block was erased', 'noerase')

    def on_store(self, eng, st, inst, addr, size, val, old):
        n = self.s.field(addr)
        for f, d in FILES.items():
            if n == d['avail']:
                old = old if old is not None else self.s.entry(n)
                df = X.sub(val, old)
                if X.isk(df) and df.a <= 0:
                    continue
                E = self.s.entry('eraseSizeInPages')
                self.count('reclaims', inst)
                if df is not E:
                    self.report(eng, inst, '%s grows by %s, not by one erase block' % (n, X.show(df)), st, 'reclaim:%s' % f)
                er = [x for x in st.auto if x[1] == f]
                if not er and not (f == 'dataFile' and self.s.flag(st, F_RLC) is True):
                    self.report(eng, inst, '%s grows although no block of %s was erased on this path' % (n, f), st, 'reclaim-noerase:%s' % f)
                st.auto = tuple(x for x in st.auto if x[1] != f)
            elif d['min'] and n == d['min']:
                pass


# ---------------------------------------------------------------- P05 flush
class FlushDurable(DBRule):
    """a successful flush leaves nothing of the record only in memory"""
    name = 'flush-durable'
    flags_needed = frozenset((F_VDATA, F_INDEX))

    def begin(self, eng, st):
        self.c0 = self.s.count(st, 0)
        st.auto = ()

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        if f not in FILES:
            return
        if ev.name == 'write' and ev.res.a == 1:
            self.count('page writes', ev.inst)
            sl = self.s.slot_of(ev.args[0])
            st.auto = tuple(x for x in st.auto if x[0] != f) + ((f, 'written', sl[0] if sl else None),)
        elif ev.name == 'flush' and ev.res.a == 1:
            self.count('file flushes', ev.inst)
            st.auto = tuple((x[0], 'synced', x[2]) if x[0] == f else x for x in st.auto)
            if not any(x[0] in (f, 'only ' + f) for x in st.auto):
                st.auto += (('only ' + f, 'synced', None),)

    def reset(self, eng, st, inst, slot):
        if slot not in (0, 2, 4):
            return
        # a write buffer is cleared: its contents must have been written successfully
        if slot == 0 and not any(x[0] == 'dataFile' for x in st.auto):
            self.report(eng, inst, 'the data write buffer is cleared before its page was written successfully', st, 'lost:data')
        if slot == 2 and self.s.flag(st, F_INDEX) is True and not any(x[0] == 'indexFile' for x in st.auto):
            self.report(eng, inst, 'the index write buffer is cleared before its page was written successfully', st, 'lost:index')
        if (slot == 4 or slot == 2 and self.s.flag(st, F_INDEX) is False) and not any(x[0] == 'varFile' for x in st.auto):
            self.report(eng, inst, 'the variable-data write buffer is cleared before its page was written successfully', st, 'lost:var')

    def on_fill(self, eng, st, inst, dst, byte, n):
        s = self.s.slot_of(dst)
        if s and X.isk(s[1]) and s[1].a == 0:
            self.reset(eng, st, inst, s[0])

    def on_store(self, eng, st, inst, addr, size, val, old):
        s = self.s.slot_of(addr)
        if s and X.isk(s[1]) and s[1].a == 4 and X.isk(val) and val.a == 0:
            self.reset(eng, st, inst, s[0])

    def on_ret(self, eng, st, inst, val):
        s = self.s
        if val is None or st.known(X.eq(val, K(0))) is False:
            return
        a = {x[0]: x for x in st.auto}
        rep = lambda msg, k: self.report(eng, inst, '%s returns success but %s' % (eng.fn.name, msg), st, k)
        for f, x in a.items():
            if x[1] != 'synced':
                rep('%s was written and not flushed to storage' % f, 'nosync:' + f)
        if eng.fn.name == 'embedDBFlush':
            need = st.known(X.eq(self.c0, K(0)))
            if need is not True:
                self.count('successful exits with records buffered', inst)
                if 'dataFile' not in a:
                    rep('the buffered records were not written to the data file', 'nowrite:data')
                if not st.eq(s.count(st, 0), K(0)):
                    rep('the data write buffer still counts %s records' % X.show(s.count(st, 0)), 'noreset:data')
            # what an earlier call that failed has left
            if 'dataFile' not in a and 'only dataFile' not in a:
                rep('data pages written by a call that failed later are not flushed to storage', 'nosync:dataFile')
            if s.flag(st, F_INDEX) is not False:
                n = s.count(st, 2)
                if not st.eq(n, K(0)) and st.known(X.eq(n, K(0))) is not True:
                    rep('index entries may be left in the buffer', 'noreset:index')
                if 'indexFile' not in a and 'only indexFile' not in a:
                    rep('index pages written before are not flushed to storage', 'nosync:indexFile')
        if need_var(self, st) and eng.fn.name in ('embedDBFlush', 'embedDBFlushVar'):
            if eng.fn.name == 'embedDBFlush' and s.flag(st, F_VDATA) is None and 'dataFile' in a:
                rep('variable data was not considered', 'nowrite:var')
            if s.flag(st, F_VDATA) is True or s.flag(st, F_VDATA) is None and eng.fn.name == 'embedDBFlushVar':
                if 'varFile' not in a and not (eng.fn.name == 'embedDBFlush' and 'dataFile' not in a):
                    rep('buffered variable data was not written', 'nowrite:var')
        if s.flag(st, F_VDATA) is True or s.flag(st, F_VDATA) is None and eng.fn.name == 'embedDBFlushVar':
            self.count('successful exits with variable data', inst)
            if 'varFile' not in a and 'only varFile' not in a and (eng.fn.name != 'embedDBFlush' or 'dataFile' in a):
                rep('variable data pages written when they became full are not flushed to storage', 'nosync:varFile')


def need_var(rule, st):
    """is there (possibly) unwritten variable data at function entry?"""
    s = rule.s
    off = X.binop('urem', s.entry('currentVarLoc'), s.entry('pageSize'), 32)
    return st.known(X.eq(off, s.entry('variableDataHeaderSize'))) is not True


# ---------------------------------------------------------------- P06 var before data
class VarBeforeData(DBRule):
    """variable data reaches storage before the permanent data page that points to it"""
    name = 'var-before-data'
    flags_needed = frozenset((F_VDATA, F_INDEX))

    def begin(self, eng, st):
        st.auto = 'entry'

    def on_file(self, eng, st, ev):
        f = ev.info['file']
        if ev.name != 'write':
            return
        if f == 'varFile' and ev.res.a == 1:
            st.auto = 'var-written'
        elif f == 'varFile':
            pass
        elif f == 'dataFile' and perm_or_temp(self, st, ev) == 'perm':
            self.count('permanent data page writes', ev.inst)
            if self.s.flag(st, F_VDATA) is False:
                return
            if st.auto == 'var-written':
                return
            off = X.binop('urem', self.s.entry('currentVarLoc'), self.s.entry('pageSize'), 32)
            if st.auto == 'entry' and st.known(X.eq(off, self.s.entry('variableDataHeaderSize'))) is True:
                return
            self.report(eng, ev.inst, 'the data page is written while variable data its records point to may only be in memory (entry %s)'
                        % eng.fn.name, st, 'order:%s' % eng.m.srcfunc(ev.inst))

    def on_copy(self, eng, st, inst, dst, src, n):
        sl = self.s.slot_of(dst)
        if sl and sl[0] in (2, 4) and self.s.flag(st, F_VDATA) is True and not X.isk(sl[1]):
            idx = self.s.flag(st, F_INDEX)
            if (idx is True and sl[0] == 4) or (idx is False and sl[0] == 2):
                st.auto = 'dirty'

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.on_copy(eng, st, inst, addr, None, None)
