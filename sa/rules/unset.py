"""Local variables are set before they are used."""
from .. import expr as X
from ..expr import K, UNDEF
from ..base import *
from ..front import UNSET
from ..engine import Engine
from .memory import Heap, HeapInit


def local(r):
    return r is not None and r.k == 's' and isinstance(r.a, tuple) and r.a[0] == 'alloca'


class Unset(Rule):
    """no branch, address, stored value, argument or result depends on a local variable, or on bytes of one, that was not set on every path"""
    name = 'unset'
    fork_file = False
    undefjoin = True
    NOINLINE = list(Heap.NOINLINE) + [UNSET]
    PURE = getattr(Heap, "PURE", ())

    def start(self, eng, st):
        st.auto = ()
        self.scalar = set()
        for b in eng.fn.blocks:
            for i in b.insts:
                if i.op == 'alloca' and (i.ty[0] == 'i' and i.ty[1:].isdigit() or i.ty in ('float', 'double', 'ptr')):
                    self.scalar.add(i.res)

    @staticmethod
    def partkey(eng, st):
        # states in which different variables are unset are kept apart, so that a test of one says something about the others
        return tuple(sorted(v for v, e in st.env.items() if e is UNDEF))

    def rep(self, eng, st, inst, what):
        if st.auto == ():
            self.report(eng, inst, '%s depends on a local variable that was not set on every path' % what, st, 'unset:%s:%s' % (eng.m.srcfunc(inst), what))
            st.auto = ('F',)

    def bad(self, e):
        return e is not None and isinstance(e, X.E) and UNDEF in e.leaves

    def on_branch(self, eng, st, inst):
        self.count('branches', inst)
        if self.bad(eng.ev(st, inst.a[0])):
            self.rep(eng, st, inst, 'a branch')

    def on_load(self, eng, st, inst, addr, size, val):
        if self.bad(addr):
            self.rep(eng, st, inst, 'an address')

    def on_bin(self, eng, st, inst, op, a, b):
        if op in ('udiv', 'sdiv', 'urem', 'srem') and self.bad(b):
            self.rep(eng, st, inst, 'a divisor')

    def on_store(self, eng, st, inst, addr, size, val, old):
        r, off = eng.split(addr)
        if self.bad(addr):
            return self.rep(eng, st, inst, 'an address')
        if local(r):
            if val.k == 'blob' and old is None and r.a[2] in self.scalar and X.isk(off) and eng.epoch(st, r, off) == 0 and not X.isk(val.a[1]):
                # some of the bytes of a variable that had no value yet
                self.count('partly set variables', inst)
                eng.store(st, addr, size, UNDEF)
            return
        self.count('stores', inst)
        if self.bad(val):
            self.rep(eng, st, inst, 'a stored value')

    def on_copy(self, eng, st, inst, dst, src, n):
        if self.bad(dst) or self.bad(src) or self.bad(n):
            return self.rep(eng, st, inst, 'a copy')

    def before_file(self, eng, st, ev):
        for a in ev.args:
            if self.bad(a):
                return self.rep(eng, st, ev.inst, 'a storage operation')

    def on_call(self, eng, st, ev):
        self.count('calls', ev.inst)
        for a in ev.args:
            if self.bad(a):
                return self.rep(eng, st, ev.inst, 'an argument')

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        if self.bad(val):
            self.rep(eng, st, inst, 'the result')


class UnsetInit(Unset):
    NOINLINE = list(HeapInit.NOINLINE) + [UNSET]
    PURE = HeapInit.PURE
