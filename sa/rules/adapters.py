"""Rules about the file interfaces: pages at their place, honest results, the right modes."""
import re

from .. import expr as X
from ..expr import K, LD
from ..base import *
from ..engine import Engine
from .records import items, put
from .memory import pathof

SEEK = {'fseek': 3, 'fseeko': 3, 'sd_fseek': 3}
READ = {'fread', 'sd_fread'}
WRITE = {'fwrite', 'sd_fwrite'}
LENGTH = {'sd_length'}
BYTES = {'sd_fwrite'}           # returns the number of bytes, not of items
OPEN, CLOSE, FLUSH = {'fopen', 'sd_fopen'}, {'fclose', 'sd_fclose'}, {'fflush', 'sd_fflush'}
DIRECT = {'dfread', 'dfwrite'}  # page, buffer, size
LIBC = READ | WRITE | OPEN | CLOSE | FLUSH | DIRECT | set(SEEK) | LENGTH | {'ftell', 'rewind', 'sd_rewind', 'sd_ftell', 'sd_feof'}
MODES = {0: {'w+b', 'wb+', 'w+'}, 1: {'r+b', 'rb+', 'r+'}}


class Adapter(Rule):
    """one function of a file interface"""
    name = 'adapter'
    NOINLINE = []
    fork_malloc = True
    notrunc = True
    PURE = tuple(LIBC)
    ROLE = ''
    FLUSHES = True

    def start(self, eng, st):
        self.eng = eng
        st.auto = ()
        self.narrow, self.wide = set(), set()
        p = eng.params
        if len(p) < {'read': 4, 'write': 4, 'erase': 4, 'open': 2, 'close': 1, 'flush': 1, 'setup': 1, 'teardown': 1}[self.ROLE]:
            raise Broken('%s has too few parameters for %s' % (eng.fn.name, self.ROLE))
        if self.ROLE in ('read', 'write'):
            self.buf, self.page, self.size, self.file = p[:4]
        elif self.ROLE == 'erase':
            self.page, self.end, self.size, self.file = p[:4]
        elif self.ROLE != 'setup':
            self.file = p[0]
        if self.ROLE in ('read', 'write', 'erase'):
            for x in (self.page, self.size) + ((self.end,) if self.ROLE == 'erase' else ()):
                x.nn = True
            st._add(self.size, 1, None, None)

    def partkey(self, eng, st):
        return tuple(st.known(X.eq(eng.params[1], K(m))) for m in MODES) if self.ROLE == 'open' else None

    # ------------------------------------------------------------ helpers
    def rep(self, eng, st, inst, msg, key):
        self.report(eng, inst, '%s (%s of the file interface)' % (msg, self.ROLE), st, '%s:%s' % (self.ROLE, key))

    def handle(self, eng, h):
        p = pathof(eng, h, [self.file])
        return p is not None and len(p) == 1

    def on_bin(self, eng, st, inst, op, a, b):
        if op == 'mul' and not (X.isk(a) or X.isk(b)):
            (self.narrow if inst.ty == 'i32' else self.wide).add(X.mul(a, b))

    def same(self, st, a, b):
        return a is b or eqknown(st, a, b) is True

    def overflow(self, e):
        bad = self.narrow - self.wide
        return any(t in bad for t in X.terms(e)[1]) or e in bad

    def string(self, eng, e):
        if e.k == 's' and isinstance(e.a, tuple) and e.a[0] == 'glob':
            g = eng.m.globals.get(e.a[1].lstrip('@'))
            mm = g and re.search(r'c"([^"]*?)\\00"', g[1])
            return mm.group(1) if mm else None

    # ------------------------------------------------------------ events
    def on_call(self, eng, st, ev):
        n, a = ev.name, items(st.auto)
        if ev.kind != 'fn':
            return
        if n in ('malloc', 'calloc', 'realloc') and ev.res is not None and X.isk(ev.res):
            st.auto = put(st.auto, fail=1)
        if n in SEEK:
            self.count('positions', ev.inst)
            if not self.handle(eng, ev.args[0]):
                self.rep(eng, st, ev.inst, 'positions %s, which is not the handle of the file given' % X.show(ev.args[0]), 'handle')
            st._add(ev.res, -1, 0, None) if n == 'sd_fseek' else None
            if not X.isk(ev.args[2]) or ev.args[2].a != 0:
                st.auto = put(st.auto, pos=None, seek=None)
            else:
                st.auto = put(st.auto, pos=ev.args[1], seek=ev.res)
        elif n in LENGTH:
            st.auto = put(st.auto, len=ev.res)
        elif n in READ | WRITE:
            self.transfer(eng, st, ev, n in READ, ev.args[0], X.mul(ev.args[1], ev.args[2]), ev.args[3],
                          X.mul(ev.args[1], ev.args[2]) if n in BYTES else ev.args[2])
        elif n in DIRECT:
            self.direct(eng, st, ev)
        elif n in OPEN:
            self.count('files opened', ev.inst)
            if 'open' in a:
                self.rep(eng, st, ev.inst, 'the file is opened twice', 'open')
            if self.ROLE != 'open':
                self.rep(eng, st, ev.inst, 'a file is opened', 'open')
            p = pathof(eng, ev.args[0], [self.file]) if self.ROLE == 'open' else None
            if p is None or len(p) != 1:
                self.rep(eng, st, ev.inst, 'opens %s, not the name of the file given' % X.show(ev.args[0]), 'name')
            st.auto = put(st.auto, open=ev.res, how=ev.args[1])
        elif n in CLOSE | FLUSH:
            if not self.handle(eng, ev.args[0]):
                self.rep(eng, st, ev.inst, '%s is given %s, which is not the handle of the file' % (n, X.show(ev.args[0])), 'handle')
            self.count('files closed' if n in CLOSE else 'flushes', ev.inst)
            k = 'closed' if n in CLOSE else 'flushed'
            if k in a and n in CLOSE:
                self.rep(eng, st, ev.inst, 'the file is closed twice', 'closed')
            st.auto = put(st.auto, **{k: ev.res, k + '-file': ev.args[0]})

    def transfer(self, eng, st, ev, read, buf, n, h, full):
        a = items(st.auto)
        self.count('transfers', ev.inst)
        if not self.handle(eng, h):
            self.rep(eng, st, ev.inst, 'transfers bytes of %s, which is not the handle of the file given' % X.show(h), 'handle')
        if read != (self.ROLE == 'read') or self.ROLE not in ('read', 'write', 'erase'):
            return self.rep(eng, st, ev.inst, '%s the file' % ('reads' if read else 'writes'), 'direction')
        st._add(ev.res, 0, None, None)
        ev.res.nn = True
        if X.isk(full):
            st._add(ev.res, None, full.a, None)
        else:
            st._add(X.sub(ev.res, full), None, 0, None)
        pos, seek = a.get('pos'), a.get('seek')
        whole = self.size if self.ROLE != 'erase' else X.mul(X.sub(self.end, self.page), self.size)
        want = X.mul(self.page, self.size)
        main = self.ROLE == 'erase' or buf is self.buf
        if not main and self.ROLE == 'write':
            # fills the gap behind the end of the file
            if pos is None or pos is not a.get('len') and 'append' not in a:
                self.rep(eng, st, ev.inst, 'writes %s bytes other than the page given at %s' % (X.show(n), X.show(pos) if pos is not None else 'an unknown place'), 'other')
            st.auto = put(st.auto, append=1, last=ev.res, want=full)
            return
        if 'done' in a:
            self.rep(eng, st, ev.inst, 'a second transfer follows', 'twice')
        if not main:
            self.rep(eng, st, ev.inst, 'transfers %s, not the buffer given' % X.show(buf), 'buffer')
        if not self.same(st, n, whole):
            self.rep(eng, st, ev.inst, 'transfers %s bytes, not %s' % (X.show(n), X.show(whole)), 'size')
        if pos is None:
            self.rep(eng, st, ev.inst, 'the place in the file is not set', 'place')
        elif not self.same(st, pos, want):
            self.rep(eng, st, ev.inst, 'transfers bytes at %s, not at %s' % (X.show(pos), X.show(want)), 'place')
        elif self.FLUSHES == 'long' and self.overflow(pos):
            self.rep(eng, st, ev.inst, 'the place %s is computed in 32 bits, too few for large files' % X.show(pos), 'overflow')
        elif st.known(X.eq(seek, K(0))) is not True:
            self.rep(eng, st, ev.inst, 'the place in the file may not have been reached', 'seek')
        st.auto = put(st.auto, done=ev.res, full=full)

    def direct(self, eng, st, ev):
        self.count('transfers', ev.inst)
        page, buf, n = ev.args[:3]
        if (ev.name == 'dfread') != (self.ROLE == 'read') or self.ROLE not in ('read', 'write'):
            return self.rep(eng, st, ev.inst, '%s the storage' % ('reads' if ev.name == 'dfread' else 'writes'), 'direction')
        start, num = self.members(eng, st)
        if buf is not self.buf:
            self.rep(eng, st, ev.inst, 'transfers %s, not the buffer given' % X.show(buf), 'buffer')
        if not self.same(st, n, self.size):
            self.rep(eng, st, ev.inst, 'transfers %s bytes, not %s' % (X.show(n), X.show(self.size)), 'size')
        if not self.same(st, page, X.add(start, self.page)):
            self.rep(eng, st, ev.inst, 'transfers page %s, not %s' % (X.show(page), X.show(X.add(start, self.page))), 'place')
        if st.known(X.ltu(self.page, num)) is not True:
            self.rep(eng, st, ev.inst, 'the page may be behind the last one of the file', 'range')
        if 'done' in items(st.auto):
            self.rep(eng, st, ev.inst, 'a second transfer follows', 'twice')
        st.auto = put(st.auto, done=ev.res, full=self.size)

    def members(self, eng, st):
        """first page and number of pages, at the places where the set-up function puts them"""
        if not hasattr(self, 'places'):
            r = Places()
            if self.SETUP not in eng.m.funcs:
                raise Broken('%s not found' % self.SETUP)
            Engine(eng.m, self.SETUP, r).run()
            if set(r.places) != {0, 1}:
                raise Broken('%s does not keep its parameters' % self.SETUP)
            self.places = r.places
        out = []
        for i in (0, 1):
            e = eng.load(st, X.add(self.file, K(self.places[i])), 4)
            e.nn = True
            out.append(e)
        return out

    # ------------------------------------------------------------ results
    def iff(self, eng, st, inst, val, cond, what):
        """the result is 'success' exactly if cond"""
        s1, s0 = st.copy(), st.copy()
        if s1.assume(cond, True) and s1.known(X.eq(val, K(0))) is not False:
            self.rep(eng, st, inst, 'failure may be reported although %s' % what, 'failure')
        if s0.assume(cond, False) and s0.known(X.eq(val, K(0))) is not True:
            self.rep(eng, st, inst, 'success may be reported unless %s' % what, 'success')

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        a = items(st.auto)
        zero = st.known(X.eq(val, K(0))) if val is not None else None
        if self.ROLE in ('read', 'write', 'erase'):
            if 'done' in a:
                self.iff(eng, st, inst, val, X.eq(a['done'], a['full']), 'all bytes were transferred')
                return
            excuse = 'fail' in a or 'seek' in a and a['seek'] is not None and st.known(X.eq(a['seek'], K(0))) is False
            excuse = excuse or 'append' in a and st.known(X.eq(a['last'], a['want'])) is False
            if self.FLUSHES is False and self.ROLE != 'erase':
                excuse = st.known(X.ltu(self.page, self.members(eng, st)[1])) is False
            if self.ROLE == 'erase' and not excuse:
                if zero is not False:
                    self.rep(eng, st, inst, 'failure is reported although nothing failed', 'failure')
                return
            if zero is not True:
                self.rep(eng, st, inst, 'success is reported although the page was not transferred', 'success')
            elif not excuse:
                self.rep(eng, st, inst, 'the page is not transferred although nothing failed', 'failure')
        elif self.ROLE == 'flush':
            if self.FLUSHES is False:
                if zero is not False:
                    self.rep(eng, st, inst, 'failure is reported although nothing failed', 'failure')
            elif 'flushed' not in a:
                if zero is not True:
                    self.rep(eng, st, inst, 'success is reported although the file was not flushed', 'success')
            else:
                self.iff(eng, st, inst, val, X.eq(a['flushed'], K(0)), 'the file was flushed')
        elif self.ROLE == 'close':
            if self.FLUSHES is False:
                return
            if 'closed' not in a:
                self.rep(eng, st, inst, 'the file is not closed', 'closed')
                return
            h = a['closed-file']
            if h.k == 'ld' and st.known(X.eq(eng.load(st, h.a[0], 8, True), K(0))) is not True:
                self.rep(eng, st, inst, 'the handle is kept after the file was closed', 'kept')
        elif self.ROLE == 'teardown':
            if self.FLUSHES is False or 'closed' in a or st.known(X.eq(self.file, K(0))) is True:
                return
            for f, (lo, hi, _) in st.bd.items():
                if lo == hi == 0 and f.k == 'ld' and self.handle(eng, f):
                    return
            self.rep(eng, st, inst, 'the file is not closed', 'closed')
        elif self.ROLE == 'open':
            self.opened(eng, st, inst, val, a, zero)

    def opened(self, eng, st, inst, val, a, zero):
        if self.FLUSHES is False:
            if zero is not False:
                self.rep(eng, st, inst, 'failure is reported although nothing failed', 'failure')
            return
        mode = eng.params[1]
        which = [m for m in MODES if st.known(X.eq(mode, K(m))) is not False]
        if 'open' not in a:
            if zero is not True:
                self.rep(eng, st, inst, 'success is reported although no file was opened', 'success')
            if any(st.known(X.eq(mode, K(m))) is True for m in MODES):
                self.rep(eng, st, inst, 'the file is not opened', 'open')
            return
        s = self.string(eng, a['how'])
        if s is not None:
            for m in which:
                if s not in MODES[m]:
                    self.rep(eng, st, inst, 'mode %d opens the file with "%s"' % (m, s), 'mode')
            if not which or not any(st.known(X.eq(mode, K(m))) is True for m in MODES):
                self.rep(eng, st, inst, 'an unknown mode opens the file with "%s"' % s, 'mode')
        held = [k for k, c in st.mem.get(self.file, {}).items() if c[1] is a['open']]
        if not held:
            self.rep(eng, st, inst, 'the handle of the file opened is lost', 'lost')
        self.iff(eng, st, inst, val, X.not_(X.eq(a['open'], K(0))), 'the file was opened')


class Places(Rule):
    """where a set-up function keeps its parameters"""
    fork_malloc = True
    NOINLINE = []

    def start(self, eng, st):
        st.auto = ()
        self.places = {}

    def on_store(self, eng, st, inst, addr, size, val, old):
        r, off = eng.split(addr)
        for i, p in enumerate(eng.params):
            if val is p and r is not None and X.isk(off) and not (isinstance(r.a, tuple) and r.a[0] == 'alloca'):
                self.places[i] = off.a


class Setup(Rule):
    """a file that is set up has its name and no handle"""
    name = 'setup'
    NOINLINE = []
    fork_malloc = True
    notrunc = True

    def start(self, eng, st):
        st.auto = ()
        self.names = {}

    def on_call(self, eng, st, ev):
        if ev.kind == 'fn' and ev.name in ('calloc',) and ev.res is not None and not X.isk(ev.res):
            st.auto = put(st.auto, zero=tuple(items(st.auto).get('zero', ())) + (ev.res,))
        if ev.kind == 'fn' and ev.name in ('strcpy', 'strdup') and ev.args[-1] is eng.params[0]:
            st.auto = put(st.auto, copy=(ev.args[0] if ev.name == 'strcpy' else ev.res,))

    def on_copy(self, eng, st, inst, dst, src, n):
        if src is eng.params[0]:
            d = [t for t in X.terms(n)[1] if t.k == 's' or t.k.startswith('fn')]
            c = X.terms(n)[0]
            if len(d) == 1 and (c == 1 or c == 0 and dst in items(st.auto).get('zero', ())):
                self.count('names copied', inst)
                st.auto = put(st.auto, copy=(dst,))

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        if z is True or X.isk(val):
            return
        cells = st.mem.get(val, {})
        copy = items(st.auto).get('copy', ())
        if not any(c[1] in copy for c in cells.values()):
            self.report(eng, inst, 'the file that is set up does not have the whole name given', st, 'setup:name')
        if not any(X.isk(c[1]) and c[1].a == 0 for c in cells.values()):
            self.report(eng, inst, 'the file that is set up may look open', st, 'setup:handle')


class SetupDirect(Rule):
    """a file on the data flash keeps its first page and number of pages"""
    name = 'setup'
    NOINLINE = []
    fork_malloc = True

    def start(self, eng, st):
        st.auto = ()

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        if X.isk(val):
            return
        vs = [c[1] for c in st.mem.get(val, {}).values()]
        for p in eng.params[:2]:
            if p not in vs:
                self.report(eng, inst, 'the file that is set up does not keep %s' % X.show(p), st, 'setup:keep')


def adapter(role, kind, setup=None):
    """kind: 'long' desktop files, True SD card, False data flash (no handles, writes take effect at once)"""
    n = 'Adapter_%s_%s' % (role, kind)
    if n in globals():
        return globals()[n]
    globals()[n] = type(n, (Adapter,), {'ROLE': role, 'FLUSHES': kind, 'SETUP': setup, '__module__': __name__})
    return globals()[n]
