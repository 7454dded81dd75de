"""Counts of page transfers."""
from .. import expr as X
from ..expr import K
from ..base import *
from .records import items, put

COUNTER = {('read', 'dataFile'): 'numReads', ('read', 'varFile'): 'numReads', ('read', 'indexFile'): 'numIdxReads',
           ('write', 'dataFile'): 'numWrites', ('write', 'varFile'): 'numWrites', ('write', 'indexFile'): 'numIdxWrites'}
ALLSTATS = ('numReads', 'numWrites', 'numIdxReads', 'numIdxWrites', 'bufferHits')
CACHED = ('bufferedPageId', 'bufferedIndexPageId', 'bufferedVarPage')


class Statistics(DBRule):
    """each counter grows by one for each transfer that succeeded, and only then"""
    name = 'statistics'

    def preset(self, eng, st):
        super().preset(eng, st)
        for f in ALLSTATS:
            self.s.entry(f).nn = True

    def begin(self, eng, st):
        st.auto = ()
        self.eng = eng

    # auto: transfers that succeeded minus transfers counted, per counter
    def step(self, eng, st, inst, name, d):
        n = max(-2, min(2, items(st.auto).get(name, 0) + d))
        st.auto = put(st.auto, **{name: n or None})

    def on_file(self, eng, st, ev):
        c = COUNTER.get((ev.name, ev.info['file']))
        if c is None or ev.res is None or not X.isk(ev.res) or ev.res.a != 1:
            return
        if c == 'numWrites' and perm_or_temp(self, st, ev) == 'temp':
            return          # temporary pages are not among the writes counted
        self.count('transfers', ev.inst)
        self.step(eng, st, ev.inst, c, 1)

    def on_load(self, eng, st, inst, addr, size, val):
        f = self.s.field(addr)
        if f in ALLSTATS:
            eng.ghost(st, f, val)

    def on_store(self, eng, st, inst, addr, size, val, old):
        f = self.s.field(addr)
        if f not in ALLSTATS:
            return
        self.count('counter updates', inst)
        src = eng.m.srcfunc(inst)
        if old is None:
            old = eng.ghost(st, f)
        if size != self.s.size(f) or old is None or not st.eq(val, X.add(old, K(1))):
            self.report(eng, inst, '%s becomes %s, not one more (entry %s)' % (f, X.show(val), eng.fn.name), st, 'by:%s:%s' % (f, src))
        elif f != 'bufferHits':
            self.step(eng, st, inst, f, -1)

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        for f, n in items(st.auto).items():
            self.report(eng, inst, '%s: %s than succeeded when %s returns' % (f, 'fewer transfers were counted' if n > 0 else 'more transfers were counted', eng.fn.name), st, '%s:%s' % (f, n > 0))


class ResetStatistics(DBRule):
    """all counters begin at zero"""
    name = 'reset-statistics'
    NOINLINE = ANCHORS + ['embedDBInitData', 'embedDBInitIndex', 'embedDBInitVarData']

    def on_ret(self, eng, st, inst, val):
        if val is not None and st.known(X.eq(val, K(0))) is False:
            return
        self.count('resets', inst)
        for f in ALLSTATS:
            if not st.eq(self.s.now(st, f), K(0)):
                self.report(eng, inst, '%s is not zero after %s' % (f, eng.fn.name), st, f)
