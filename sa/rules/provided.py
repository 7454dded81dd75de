"""Parts of the database that only some configurations have."""
from .. import expr as X
from ..expr import K
from ..base import *

CALLBACKS = ('updateBitmap', 'inBitmap', 'buildBitmapFromRange')


class Provided(DBRule):
    """the index file, the variable data file, their page buffers, the spline and the bitmap functions are used only where the configuration has them"""
    name = 'provided'
    flags_needed = frozenset((F_INDEX, F_VDATA, F_BMAP, F_BIN))

    def begin(self, eng, st):
        st.auto = ()
        self.eng = eng
        # a stream of variable data exists only where there is variable data
        self.stream = any(p.ptee == 'embedDBVarDataStream' for p in eng.params)

    def there(self, st, f):
        return st.known(X.eq(self.s.now(st, f), K(0))) is False or st.known(X.eq(self.s.entry(f), K(0))) is False

    def index(self, st):
        return self.eng.fn.name == 'embedDBInitIndex' or self.s.flag(st, F_INDEX) is True or self.there(st, 'indexFile')

    def var(self, st):
        return self.stream or self.eng.fn.name == 'embedDBInitVarData' or self.s.flag(st, F_VDATA) is True or self.there(st, 'varFile')

    def spline(self, st):
        return self.s.flag(st, F_BIN) is False or self.there(st, 'spl')

    def bad(self, eng, st, inst, what, key):
        self.report(eng, inst, '%s although the configuration may have none (entry %s)' % (what, eng.fn.name), st, '%s:%s' % (key, eng.m.srcfunc(inst)))

    def before_file(self, eng, st, ev):
        f = ev.info['file']
        if f in ('indexFile', 'varFile'):
            self.count('operations on files of options', ev.inst)
            if not (self.index(st) if f == 'indexFile' else self.var(st)):
                self.bad(eng, st, ev.inst, 'the %s is used' % ('index file' if f == 'indexFile' else 'variable data file'), f)

    def on_call(self, eng, st, ev):
        if ev.kind == 'slot' and ev.name in CALLBACKS:
            self.count('bitmap functions', ev.inst)
            if self.s.flag(st, F_BMAP) is not True and self.s.flag(st, F_INDEX) is not True:
                self.bad(eng, st, ev.inst, '%s is called for bitmaps' % ev.name, 'bitmap')
        elif ev.kind == 'fn' and ev.args and ev.args[0] in (self.s.entry('spl'), self.s.now(st, 'spl')):
            self.count('uses of the spline', ev.inst)
            if not self.spline(st):
                self.bad(eng, st, ev.inst, 'the spline is used', 'spline')

    def access(self, eng, st, inst, addr):
        if addr is None:
            return
        root, off = eng.split(addr)
        if root is None:
            return
        if root is self.s.buf():
            n = eng.slot(off)[0]
            if n in (0, 1):
                return
            self.count('uses of page buffers of options', inst)
            if n in (2, 3):
                ok = self.index(st) or self.var(st)
            else:
                ok = n in (4, 5) and self.index(st) and self.var(st)
            if not ok:
                self.bad(eng, st, inst, 'page %s of the buffer is used' % n, 'slot%s' % n)
        elif root in (self.s.entry('spl'), self.s.now(st, 'spl')):
            self.count('uses of the spline', inst)
            if not self.spline(st):
                self.bad(eng, st, inst, 'the spline is used', 'spline')

    def on_load(self, eng, st, inst, addr, size, val):
        self.access(eng, st, inst, addr)

    def on_store(self, eng, st, inst, addr, size, val, old):
        self.access(eng, st, inst, addr)

    def on_copy(self, eng, st, inst, dst, src, n):
        self.access(eng, st, inst, dst)
        self.access(eng, st, inst, src)

    def on_fill(self, eng, st, inst, dst, byte, n):
        self.access(eng, st, inst, dst)


class ProvidedInit(Provided):
    """initialising prepares only the parts that are configured"""
    name = 'provided-init'
    NOINLINE = ANCHORS + ['embedDBInitData', 'embedDBInitIndex', 'embedDBInitVarData']
    PURE = ('embedDBInitData', 'embedDBInitIndex', 'embedDBInitVarData')

    def on_call(self, eng, st, ev):
        super().on_call(eng, st, ev)
        if ev.kind == 'fn' and ev.name in self.PURE:
            self.count('parts', ev.inst)
            if ev.name == 'embedDBInitIndex' and not self.index(st) or ev.name == 'embedDBInitVarData' and not self.var(st):
                self.bad(eng, st, ev.inst, '%s is called' % ev.name, ev.name)
