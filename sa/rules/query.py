"""Rules about the query interface: operators, aggregate functions, schemas.

The functions behind the operators are analysed one at a time. What other code does is taken by its contract: `next` of an input
either puts the next record into the input's recordBuffer and returns 1, or returns 0; comparators and schema functions are
values of their arguments (each is decided by a rule of its own)."""
from .. import expr as X
from ..expr import K, LD
from ..engine import Rule, EngineError, State
from ..base import ANCHORS, Broken
from .reads import V
from .records import items, put, param

SCHEMAFN = ['getColOffsetFromSchema', 'getRecordSizeFromSchema', 'createBufferFromSchema', 'copySchema', 'embedDBFreeSchema']
COMPARE = ['compareUnsignedNumbers', 'compareSignedNumbers']
SIZEFN = ('getColOffsetFromSchema', 'getRecordSizeFromSchema')
GT, LT, GTE, LTE, EQ, NEQ = range(6)
SELECTS = {GT: (1,), LT: (-1,), GTE: (0, 1), LTE: (-1, 0), EQ: (0,), NEQ: (-1, 1)}


def strip(e):
    while e.k in ('tr', 'zx'):
        e = e.a[0]
    return e


def offset(schema, col):
    return X.op('fn_getColOffsetFromSchema', schema, col, nn=True)


def recsize(schema):
    return X.op('fn_getRecordSizeFromSchema', schema, nn=True)


def forms(st, e):
    """e and what the equations known make of it"""
    out = [e]
    for d, (l, h, _) in st.bd.items():
        if l != h or e not in d.leaves:
            continue
        k = X.terms(d)[1].get(e)
        if k in (1, -1):
            out.append(st.val(X.sub(e, X.scale(X.sub(d, K(l)), k))))
    return out


class QRule(Rule):
    """base: contracts of the calls, views of the structures"""
    NOINLINE = ANCHORS + SCHEMAFN + COMPARE + ['embedDBNext']
    PURE = tuple(SIZEFN) + tuple(COMPARE)
    notrunc = True
    valuekeys = 'phis'
    linrel = True
    AGG = ('reset', 'add', 'compute')

    def view(self, ptr, sname):
        return V(self.eng, ptr, sname)

    def start(self, eng, st):
        self.eng = eng
        self.begin(eng, st)

    def operator(self, eng, st):
        self.op = V.of(eng, 'embedDBOperator')
        self.inp = self.view(self.op.entry('input'), 'embedDBOperator')
        for v in (self.op, self.inp):
            for f in ('state', 'recordBuffer', 'schema', 'input'):
                v.entry(f).isptr = True
        st._add(self.op.p, 1, None, None)

    def begin(self, eng, st):
        self.operator(eng, st)
        st.auto = ()

    # ---- contracts
    def contract(self, eng, st, ev):
        if ev.kind == 'fn' and ev.name == 'embedDBNext':
            for a in ev.args[2:4]:
                r, _ = eng.split(a)
                if r is not None:
                    eng.havoc_root(st, r, 'next')
            return True
        if ev.kind == 'fn' and ev.name in ('createBufferFromSchema', 'copySchema'):
            return True
        if ev.kind != 'slot':
            return False
        if ev.name == 'next':
            # the record in the input's buffer is replaced
            a = ev.args[0]
            v = self.view(a, 'embedDBOperator')
            r = v.now(st, 'recordBuffer')
            r.isptr = True
            eng.havoc_root(st, r, 'next')
            return True
        if ev.name in ('reset', 'add', 'groupfunc'):
            return True
        if ev.name == 'compute':
            r, _ = eng.split(ev.args[2])
            if r is not None:
                eng.havoc_root(st, r, 'compute')
            return True
        return False

    def on_call(self, eng, st, ev):
        inst = ev.inst
        if ev.kind == 'fn' and ev.name in SIZEFN:
            ev.res = X.op('fn_' + ev.name, *[strip(a) for a in ev.args], nn=True)
            return None
        if ev.kind == 'fn' and ev.name in ('createBufferFromSchema', 'copySchema'):
            ev.res.isptr = True
            if ev.name == 'copySchema':
                ev.res.ptee = 'embedDBSchema'
            return self.fork(eng, st, ev, (K(0), ev.res), self.on_new)
        if ev.kind == 'fn' and ev.name in COMPARE:
            return self.fork(eng, st, ev, self.cmpvalues(st, ev), self.on_compare)
        if ev.kind == 'slot' and ev.name == 'next' or ev.kind == 'fn' and ev.name == 'embedDBNext':
            self.before_next(eng, st, ev)
            return self.fork(eng, st, ev, (K(0), K(1)), self.on_next)
        if ev.kind == 'slot' and ev.name == 'groupfunc':
            return self.fork(eng, st, ev, (K(0), K(1)), self.on_group)
        return self.on_other(eng, st, ev)

    def cmpvalues(self, st, ev):
        return K(-1), K(0), K(1)

    def fork(self, eng, st, ev, vals, hook):
        out = []
        for v in vals:
            last = v is vals[-1]
            s2 = st if last else st.copy()
            s2.env[ev.inst.res] = v
            ev.res = v
            eng.note(s2, ev.inst, '%s(%s) = %s' % (ev.name, ', '.join(X.show(a) for a in ev.args), X.show(v)))
            hook(eng, s2, ev)
            out.append(s2)
        return out

    def before_next(self, eng, st, ev):
        pass

    def on_next(self, eng, st, ev):
        pass

    def on_compare(self, eng, st, ev):
        pass

    def on_group(self, eng, st, ev):
        pass

    def on_new(self, eng, st, ev):
        pass

    def on_other(self, eng, st, ev):
        pass

    # ---- values
    def colsize(self, st, schema, col):
        cs = self.eng.load(st, X.add(schema, K(self.view(schema, 'embedDBSchema').off['columnSizes'][0])), 8, True)
        cs.isptr = True
        return self.eng.load(st, X.add(cs, col), 1)

    def isabs(self, st, e, c):
        """is e the absolute value of c?"""
        e, c = strip(e), strip(c)
        if e.k in ('fn_llvm.abs.i32', 'fn_abs', 'fn_llvm.abs.i64', 'fn_llvm.abs.i8') and st.eq(strip(e.a[0]), c):
            return True
        neg = st.known(X.lts(c, K(0)))
        if neg is None:
            # the sign is known of the same value with its extension in between
            for w in (8, 16, 32):
                neg = st.known(X.lts(X.op('tr', c, w, w=w), K(0))) if neg is None else neg
        if neg is False and st.eq(e, c) or neg is True and st.eq(e, X.scale(c, -1)):
            return True
        # min(|c|, bound) is the caller's business
        return False

    def nullguard(self, st):
        """the operator lacks one of its parts"""
        for v in (self.op, self.inp):
            for f in ('input', 'schema', 'recordBuffer', 'state'):
                if st.known(X.eq(v.entry(f), K(0))) is True:
                    return True
        return False

    def outside(self, eng, st, inst, addr, what):
        """next functions write only the operator's own record buffer and state"""


# ---------------------------------------------------------------- P27
class Select(QRule):
    """a selection returns exactly the records of its input that satisfy the condition, unchanged"""
    name = 'selection'

    def begin(self, eng, st):
        self.operator(eng, st)
        self.info = self.view(self.op.entry('state'), 'selectionInfo')
        st.auto = ()

    def preds(self, eng, st):
        o = strip(self.info.entry('operation'))
        return [X.eq(o, K(k)) for k in SELECTS]

    def schemas(self, st):
        return self.inp.now(st, 'schema'), self.op.now(st, 'schema')

    def on_next(self, eng, st, ev):
        if ev.args[0] is not self.op.entry('input'):
            self.report(eng, ev.inst, 'the selection reads from %s' % X.show(ev.args[0]), st, 'input')
        self.count('input reads', ev.inst)
        if ev.res.a == 0:
            st.auto = (('end', 1),)
        else:
            st.auto = (('rec', 1),)

    def before_next(self, eng, st, ev):
        a = items(st.auto)
        if 'end' in a:
            return
        if 'rec' in a and self.verdict(st, a) is not False:
            self.report(eng, ev.inst, 'the selection can pass over a record that satisfies its condition', st, 'skipped')

    def column(self, st):
        return strip(self.info.entry('colNum'))

    def on_compare(self, eng, st, ev):
        a, b, n = ev.args[:3]
        self.count('comparisons', ev.inst)
        r = ev.res.a
        val = self.info.now(st, 'compVal')
        buf = self.inp.now(st, 'recordBuffer')
        if a is val:
            a, b, r = b, a, -r
        if b is not val:
            self.report(eng, ev.inst, 'the selection compares %s with %s, not with the value it was given' % (X.show(a), X.show(b)), st, 'value')
        col = self.column(st)
        if not any(st.eq(a, X.add(buf, offset(s, col))) for s in self.schemas(st)):
            self.report(eng, ev.inst, 'the selection compares the bytes at %s, which is not the selected column of the input record' % X.show(a), st, 'column')
        sizes = [self.colsize(st, s, col) for s in self.schemas(st)]
        if not any(self.isabs(st, n, c) for c in sizes):
            self.report(eng, ev.inst, 'the selection compares %s bytes, not the size of the column' % X.show(n), st, 'size')
        signed = [st.known(X.lts(c, K(0))) for c in sizes]
        want = ev.name == 'compareSignedNumbers'
        if want not in signed:
            self.report(eng, ev.inst, 'a column is compared as %s although it may not be' % ('signed' if want else 'unsigned'), st, 'sign')
        st.auto = put(st.auto, cmp=r)

    def verdict(self, st, a):
        """does the record satisfy the condition: True, False or None (not known)"""
        o = strip(self.info.entry('operation'))
        res = set()
        other = True
        for k, rs in SELECTS.items():
            t = st.known(X.eq(o, K(k)))
            if t is False:
                continue
            if 'cmp' not in a:
                res.add(None)
            else:
                res.add(a['cmp'] in rs)
            if t is True:
                other = False
        if other:
            res.add(False)
        return res.pop() if len(res) == 1 else None

    def on_copy(self, eng, st, inst, dst, src, n):
        out, buf = self.op.now(st, 'recordBuffer'), self.inp.now(st, 'recordBuffer')
        if dst is not out:
            return
        self.count('record copies', inst)
        if src is not buf or not any(st.eq(n, recsize(s)) for s in self.schemas(st)):
            self.report(eng, inst, 'the selection outputs %s bytes from %s' % (X.show(n), X.show(src)), st, 'copy')
        st.auto = put(st.auto, copied=1)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        if z is not True:
            if z is None:
                self.report(eng, inst, 'whether a record is returned is not decided by the comparison', st, 'result')
            if 'rec' not in a or self.verdict(st, a) is not True:
                self.report(eng, inst, 'the selection can return a record that does not satisfy its condition', st, 'unselected')
            if 'copied' not in a:
                self.report(eng, inst, 'the selection returns without copying the record', st, 'nocopy')
        elif 'end' not in a and not self.nullguard(st):
            self.report(eng, inst, 'the selection can end before its input', st, 'early')


class CompareBytes(QRule):
    """byte-wise comparison of little-endian numbers"""
    name = 'compare-bytes'
    valuekeys = False
    NOINLINE = ANCHORS
    PURE = ()

    def on_sext(self, eng, st, inst, e):
        # a byte taken as a signed value is another value
        return X.op('sxb', e) if e.k == 'ld' and X.root_of(e.a[0]) in (self.a, self.b) else e

    def begin(self, eng, st):
        self.a, self.b, self.n = param(eng, 0), param(eng, 1), strip(param(eng, 2))
        self.signed = 'Signed' in eng.fn.name
        st._add(self.n, 1, None, None)
        self.top = X.sub(self.n, K(1))
        eng.ghost(st, 'next', self.top)      # every byte above this one is known to be equal
        st.auto = ()

    def pair(self, eng, st, off):
        return [eng.load(st, X.add(p, off), 1) for p in (self.a, self.b)]

    def lt(self, st, x, y, signed=False):
        """is x < y: True, False, None"""
        sx, sy = X.op('sxb', x), X.op('sxb', y)
        if st.known(X.eq(sx, sy)) is True:
            return False
        if signed:
            return st.known(X.lts(sx, sy)) if st.known(X.eq(sx, sy)) is False or st.known(X.lts(sx, sy)) is not None else None
        k = X.ltu
        r = st.known(k(x, y))
        if r is None and st.known(k(y, x)) is True:
            r = False
        if r is None and st.known(X.eq(x, y)) is True:
            r = False
        if r is None and st.known(k(y, x)) is False and st.known(X.eq(x, y)) is False:
            r = True
        return r

    def msb(self, eng, st):
        """the sign bits of the two numbers, as far as known: pairs of zero / not zero, and whether they are equal"""
        p = self.pair(eng, st, self.top)
        z, same = [None, None], None
        for f in (lambda v: v, lambda v: X.op('sxb', v)):
            w = [f(v) for v in p]
            for c, d in zip([X.binop('and', v, K(128), 32) for v in w], (0, 1)):
                t = st.known(X.eq(c, K(0)))
                z[d] = t if t is not None else z[d]
            a, b = [X.binop('and', v, K(128), 32) for v in w]
            t = st.known(X.eq(a, b))
            same = t if t is not None else same
        for d in (0, 1):
            t = st.known(X.lts(X.op('sxb', p[d]), K(0)))
            if t is not None:
                z[d] = not t
            t = st.known(X.ltu(p[d], K(128)))
            if t is not None:
                z[d] = t
        if None not in z:
            same = z[0] == z[1]
        elif same is not None:
            z = [z[0] if z[0] is not None else (z[1] == same if z[1] is not None else None),
                 z[1] if z[1] is not None else (z[0] == same if z[0] is not None else None)]
        return z, same

    def on_assume(self, eng, st, inst):
        g = eng.ghost(st, 'next')
        x, y = self.pair(eng, st, g)
        if self.lt(st, x, y) is False and self.lt(st, y, x) is False:
            eng.ghost(st, 'next', X.sub(g, K(1)))
        for n in (0, 1):
            if self.smaller(eng, st, bool(n)):
                st.auto = put(st.auto, **{'lt' if n == 0 else 'gt': 1})

    def on_load(self, eng, st, inst, addr, size, val):
        r = X.root_of(addr)
        if r not in (self.a, self.b):
            return
        off = X.sub(addr, r)
        self.count('bytes loaded', inst)
        if size != 1:
            self.report(eng, inst, 'numbers are compared %d bytes at a time' % size, st, 'width')
        elif st.eq(off, eng.ghost(st, 'next')):
            eng.ghost(st, 'next', off)       # the same number by another name
        elif not st.eq(off, self.top):
            self.report(eng, inst, 'byte %s is compared before the bytes above it were found equal' % X.show(off), st, 'byte')

    def smaller(self, eng, st, swap):
        """is the first number (the second, if swap) known to be smaller?"""
        g = eng.ghost(st, 'next')
        x, y = self.pair(eng, st, g)
        if swap:
            x, y = y, x
        z, same = self.msb(eng, st) if self.signed else (None, True)
        low = st.known(X.eq(g, self.top)) is False
        if self.lt(st, x, y) is True and (same is True or low):
            return True
        if not self.signed:
            return False
        x, y = self.pair(eng, st, self.top)
        if swap:
            x, y = y, x
            z = z[::-1]
        if self.lt(st, x, y, True) is True:
            return True
        return z[0] is False and z[1] is True

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        val = st.val(val)
        if not X.isk(val):
            self.report(eng, inst, 'the result of the comparison is not a constant', st, 'result')
        elif val.a == 0:
            if not any(st.known(X.lts(g, K(0))) is True for g in forms(st, eng.ghost(st, 'next'))):
                self.report(eng, inst, 'numbers are found equal before all their bytes are', st, 'equal')
        elif ('gt' if val.a > 0 else 'lt') not in items(st.auto):
            self.report(eng, inst, 'a number is found %s although it may not be' % ('larger' if val.a > 0 else 'smaller'), st, 'order')


# ---------------------------------------------------------------- P30
class Join(QRule):
    """a join on the keys returns every pair of records with the same key once"""
    name = 'key-join'
    flags_needed = frozenset()

    def begin(self, eng, st):
        self.operator(eng, st)
        self.info = self.view(self.op.entry('state'), 'keyJoinInfo')
        self.inp2 = self.view(self.info.entry('input2'), 'embedDBOperator')
        for f in ('state', 'recordBuffer', 'schema', 'input'):
            self.inp2.entry(f).isptr = True
        self.ins = (self.inp, self.inp2)
        st.auto = ()

    def schema(self, st, i):
        return self.ins[i].now(st, 'schema')

    def first(self, st):
        k = st.known(X.eq(strip(self.info.entry('firstCall')), K(0)))
        return None if k is None else not k

    def which(self, ev):
        for i, v in enumerate(self.ins):
            if ev.args[0] is v.p:
                return i
        return None

    def before_next(self, eng, st, ev):
        i = self.which(ev)
        a = items(st.auto)
        self.count('input steps', ev.inst)
        if i is None:
            self.report(eng, ev.inst, 'the join reads from %s' % X.show(ev.args[0]), st, 'input')
            return
        if 'end' in a:
            return
        if self.first(st) is not False and a.get('moved', ()) != (0, 1) and 'cmp' not in a:
            if self.first(st) is None:
                self.report(eng, ev.inst, 'the join moves an input without knowing whether this is its first call', st, 'first')
            if i in a.get('moved', ()):
                self.report(eng, ev.inst, 'the join passes over the first record of an input', st, 'skip-first')
            return
        r = a.get('cmp')
        if r is None and 'moved' not in a and self.first(st) is False:
            return                          # the records returned by the last call
        if r is None:
            if 'used' in a and i not in a['used']:
                return                      # second input after a match
            self.report(eng, ev.inst, 'the join moves an input without having compared its record', st, 'blind')
        elif r == 0:
            if 'fresh' in a:
                self.report(eng, ev.inst, 'the join passes over a pair of records with the same key', st, 'lost')
        elif (r < 0) != (i == 0):
            self.report(eng, ev.inst, 'the join moves the input with the larger key', st, 'larger')

    def on_next(self, eng, st, ev):
        i = self.which(ev)
        a = items(st.auto)
        if ev.res.a == 0:
            st.auto = put(st.auto, end=1)
            return
        if i is None:
            return
        used = None
        if a.get('cmp') == 0 or 'used' in a or 'cmp' not in a and 'moved' not in a and self.first(st) is False:
            used = tuple(sorted(set(a.get('used', ())) | {i}))
        mv = tuple(sorted(set(a.get('moved', ())) | {i}))
        st.auto = put(st.auto, cmp=None, fresh=1, used=used, moved=mv, c0=None, c1=None)

    def cmpvalues(self, st, ev):
        # the same records compare as they did before
        a = items(st.auto)
        r0, r1 = [v.now(st, 'recordBuffer') for v in self.ins]
        if 'cmp' in a and ev.args[:2] in ([r0, r1], [r1, r0]):
            return (K(a['cmp'] if ev.args[0] is r0 else -a['cmp']),)
        return QRule.cmpvalues(self, st, ev)

    def on_compare(self, eng, st, ev):
        a, b, n = ev.args[:3]
        self.count('key comparisons', ev.inst)
        r = ev.res.a
        r0, r1 = [v.now(st, 'recordBuffer') for v in self.ins]
        if a is r1 and b is r0:
            a, b, r = b, a, -r
        if a is not r0 or b is not r1:
            self.report(eng, ev.inst, 'the join compares %s with %s' % (X.show(a), X.show(b)), st, 'compare-what')
        if not any(self.isabs(st, n, self.colsize(st, self.schema(st, i), K(0))) or st.eq(strip(n), self.colsize(st, self.schema(st, i), K(0))) for i in (0, 1)):
            self.report(eng, ev.inst, 'the join compares %s bytes, not the size of the key' % X.show(n), st, 'compare-size')
        if ev.name != 'compareUnsignedNumbers':
            self.report(eng, ev.inst, 'the join compares keys as signed numbers', st, 'compare-sign')
        d = items(st.auto)
        if self.first(st) is not False and d.get('moved', ()) != (0, 1) and 'cmp' not in d:
            self.report(eng, ev.inst, 'the join compares records before both inputs were read', st, 'unread')
        st.auto = put(st.auto, cmp=r, used=None)

    def on_copy(self, eng, st, inst, dst, src, n):
        out = self.op.now(st, 'recordBuffer')
        r, off = eng.split(dst)
        if r is not out:
            return
        self.count('record copies', inst)
        want = K(0)
        for i in (0, 1):
            if src is self.ins[i].now(st, 'recordBuffer'):
                if not st.eq(off, want):
                    self.report(eng, inst, 'the join puts the record of input %d at %s' % (i + 1, X.show(off)), st, 'where%d' % i)
                if not st.eq(strip(n), recsize(self.schema(st, i))):
                    self.report(eng, inst, 'the join copies %s bytes of input %d' % (X.show(n), i + 1), st, 'size%d' % i)
                st.auto = put(st.auto, **{'c%d' % i: 1})
                return
            want = recsize(self.schema(st, 0))
        self.report(eng, inst, 'the join outputs bytes from %s' % X.show(src), st, 'src')

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        if z is not True:
            if 'end' in a or 'fresh' not in a or a.get('cmp') != 0:
                self.report(eng, inst, 'the join can return a pair of records whose keys were not found equal', st, 'unequal')
            if 'c0' not in a or 'c1' not in a:
                self.report(eng, inst, 'the join returns without copying both records', st, 'nocopy')
            if st.known(X.eq(self.info.now(st, 'firstCall'), K(0))) is not True:
                self.report(eng, inst, 'the join starts again on its next call', st, 'restart')
        elif 'end' not in a and not self.nullguard(st):
            self.report(eng, inst, 'the join can end before either of its inputs', st, 'early')


# ---------------------------------------------------------------- P28
class Aggregate(QRule):
    """each group of records is aggregated completely and returned once"""
    name = 'aggregate'

    def begin(self, eng, st):
        self.operator(eng, st)
        self.info = self.view(self.op.entry('state'), 'aggregateInfo')
        for f in ('functions', 'lastRecordBuffer'):
            self.info.entry(f).isptr = True
        self.fsz = eng.m.types.size('%struct.embedDBAggregateFunc')
        self.fv = self.view(self.info.entry('functions'), 'embedDBAggregateFunc')
        self.len = self.info.entry('functionsLength')
        self.len.nn = True
        self.end = X.add(self.info.entry('functions'), X.scale(self.len, self.fsz))
        for g in self.AGG:
            eng.ghost(st, g, self.info.entry('functions'))      # the next function to be called
        st.auto = ()

    def left(self, i):
        """are there functions at and behind i?"""
        d = X.sub(i, self.end)
        c, t = X.terms(d)
        if c % self.fsz == 0 and all(k % self.fsz == 0 for k in t.values()):
            d = X.fromterms(c // self.fsz, {e: k // self.fsz for e, k in t.items()})
        return X.lts(d, K(0))

    def preds(self, eng, st):
        if any(eng.kb in body and not any(h2 is not h and h2 in body for h2 in eng.fi.loops) for h, body in eng.fi.loops.items()):
            return []            # within the loops over the functions the counters move
        return [self.left(eng.ghost(st, g)) for g in self.AGG]

    def slotval(self, eng, st, g):
        return eng.load(st, X.add(eng.ghost(st, g), K(self.fv.off[g][0])), 8, True)

    def on_load(self, eng, st, inst, addr, size, val):
        if size == 8:
            for g in self.AGG:
                e, f = X.sub(addr, K(self.fv.off[g][0])), eng.ghost(st, g)
                if e is not f and st.eq(e, f):
                    eng.ghost(st, g, e)          # the same function by another name

    def on_assume(self, eng, st, inst):
        # a function without this entry is passed over
        for g in self.AGG:
            if st.known(X.eq(self.slotval(eng, st, g), K(0))) is True:
                eng.ghost(st, g, X.add(eng.ghost(st, g), K(self.fsz)))
            elif 'all ' + g not in items(st.auto) and self.all(eng, st, g):
                st.auto = put(st.auto, **{'all ' + g: 1})

    def all(self, eng, st, g):
        return 'all ' + g in items(st.auto) or any(st.known(self.left(j)) is False for j in forms(st, eng.ghost(st, g)))

    def on_other(self, eng, st, ev):
        if ev.kind != 'slot' or ev.name not in self.AGG:
            return
        g, a = ev.name, items(st.auto)
        self.count('%s calls' % g, ev.inst)
        i = eng.ghost(st, g)
        if not st.eq(ev.args[0], i):
            self.report(eng, ev.inst, '%s is called for %s, not for function %s' % (g, X.show(ev.args[0]), X.show(i)), st, g + '-order')
        sch = self.op.now(st, 'schema') if g == 'compute' else self.inp.now(st, 'schema')
        if ev.args[1] is not sch:
            self.report(eng, ev.inst, '%s gets the schema %s' % (g, X.show(ev.args[1])), st, g + '-schema')
        if g == 'reset':
            if 'n' in a or 's' in a:
                self.report(eng, ev.inst, 'a function is reset within a group', st, 'reset-late')
        elif g == 'add':
            if not self.all(eng, st, 'reset'):
                self.report(eng, ev.inst, 'records are added to functions that were not reset', st, 'not-reset')
            s = a.get('s')
            if s is None:
                if st.known(X.eq(strip(self.info.entry('isLastRecordUsable')), K(0))) is not False:
                    self.report(eng, ev.inst, 'a record left from the last group is added although there may be none', st, 'carry-none')
                if ev.args[2] is not self.info.now(st, 'lastRecordBuffer'):
                    self.report(eng, ev.inst, '%s is added, not the record left from the last group' % X.show(ev.args[2]), st, 'carry-what')
            else:
                self.judge(eng, st, a)
                s = items(st.auto).get('s')
                if s != 'same':
                    self.report(eng, ev.inst, 'a record that does not belong to the group is added to it', st, 'wrong-group')
                if ev.args[2] is not self.inp.now(st, 'recordBuffer'):
                    self.report(eng, ev.inst, '%s is added, not the record read' % X.show(ev.args[2]), st, 'add-what')
        else:
            if ev.args[2] is not self.op.now(st, 'recordBuffer'):
                self.report(eng, ev.inst, 'results are put into %s' % X.show(ev.args[2]), st, 'compute-where')
            if ev.args[3] is not self.info.now(st, 'lastRecordBuffer') or 'over' in a:
                self.report(eng, ev.inst, 'results are computed with a last record that is not the last of the group', st, 'compute-last')
            if a.get('s') not in ('diff', 'end') or 'n' not in a:
                self.report(eng, ev.inst, 'results are computed before the group is complete', st, 'compute-early')
        eng.ghost(st, g, X.add(i, K(self.fsz)))

    def judge(self, eng, st, a):
        """the first record read belongs to the group if nothing was read before"""
        if a.get('s') == 'new' and self.usable(st) is False:
            st.auto = put(st.auto, s='same', n=1)

    def usable(self, st):
        k = st.known(X.eq(self.info.now(st, 'isLastRecordUsable'), K(0)))
        return None if k is None else not k

    def on_group(self, eng, st, ev):
        self.count('group tests', ev.inst)
        a = items(st.auto)
        if ev.args[0] is not self.info.now(st, 'lastRecordBuffer') or ev.args[1] is not self.inp.now(st, 'recordBuffer'):
            self.report(eng, ev.inst, 'groups are told apart by (%s, %s)' % (X.show(ev.args[0]), X.show(ev.args[1])), st, 'group-what')
        if self.usable(st) is not True:
            self.report(eng, ev.inst, 'a record is compared with a last record that may not be usable', st, 'group-none')
        if a.get('s') == 'new':
            st.auto = put(st.auto, s='same' if ev.res.a else 'diff', n=1 if ev.res.a else a.get('n'))

    def before_next(self, eng, st, ev):
        a = items(st.auto)
        self.count('input reads', ev.inst)
        if ev.args[0] is not self.op.entry('input'):
            self.report(eng, ev.inst, 'the aggregate reads from %s' % X.show(ev.args[0]), st, 'input')
        s = a.get('s')
        if not self.all(eng, st, 'reset'):
            self.report(eng, ev.inst, 'records are read before every function was reset', st, 'not-reset')
        if s is None:
            u = st.known(X.eq(strip(self.info.entry('isLastRecordUsable')), K(0)))
            if u is None:
                self.report(eng, ev.inst, 'the record left from the last group is not considered', st, 'carry')
            elif u is False:
                if not self.all(eng, st, 'add'):
                    self.report(eng, ev.inst, 'the record left from the last group is not added to every function', st, 'carry-lost')
                st.auto = put(st.auto, n=1)
            return
        self.judge(eng, st, a)
        a = items(st.auto)
        s = a.get('s')
        if s == 'same':
            if not self.all(eng, st, 'add'):
                self.report(eng, ev.inst, 'a record of the group is not added to every function', st, 'lost')
            if 'kept' not in a or self.usable(st) is not True:
                self.report(eng, ev.inst, 'the last record of the group is not kept for comparison with the next', st, 'not-kept')
        elif s in ('new', 'diff'):
            self.report(eng, ev.inst, 'a record is read over before it was added to a group', st, 'lost')

    def on_next(self, eng, st, ev):
        a = items(st.auto)
        if ev.res.a == 0:
            st.auto = put(st.auto, s='end', kept=None)
        else:
            eng.ghost(st, 'add', self.info.entry('functions'))
            st.auto = put(st.auto, s='new', kept=None, **{'all add': None})

    def on_copy(self, eng, st, inst, dst, src, n):
        r, off = eng.split(dst)
        if r is not self.info.now(st, 'lastRecordBuffer'):
            return
        self.count('record copies', inst)
        a = items(st.auto)
        if src is not self.inp.now(st, 'recordBuffer') or not (X.isk(off) and off.a == 0):
            self.report(eng, inst, 'the last record is taken from %s' % X.show(src), st, 'keep-what')
        z = self.info.now(st, 'bufferSize')
        if not (st.eq(strip(n), strip(z)) or st.eq(strip(n), recsize(self.inp.now(st, 'schema')))):
            self.report(eng, inst, '%s bytes of the last record are kept' % X.show(n), st, 'keep-size')
        s = a.get('s')
        if s == 'new':
            self.judge(eng, st, a)
            a = items(st.auto)
            s = a.get('s')
        if s in ('diff', 'end'):
            st.auto = put(st.auto, over=1, kept=1)
        else:
            st.auto = put(st.auto, kept=1)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        s = a.get('s')
        if z is not True:
            if 'n' not in a or s not in ('diff', 'end'):
                self.report(eng, inst, 'the aggregate can return a result for an empty or incomplete group', st, 'empty')
                return
            if not self.all(eng, st, 'compute'):
                self.report(eng, inst, 'the aggregate returns before every function was computed', st, 'not-computed')
            if s == 'end' and self.usable(st) is not False:
                self.report(eng, inst, 'after the last group its last record may be used again', st, 'again')
            if s == 'diff' and (self.usable(st) is not True or 'kept' not in a):
                self.report(eng, inst, 'the first record of the next group can be lost', st, 'carry-forward')
        elif not self.nullguard(st):
            if s != 'end' or 'n' in a:
                self.report(eng, inst, 'the aggregate can end with records left', st, 'early')


# ---------------------------------------------------------------- P31
class Project(QRule):
    """a projection outputs the chosen columns one after the other"""
    name = 'projection'
    ptrjoin = True

    def begin(self, eng, st):
        self.operator(eng, st)
        self.s = self.op.entry('state')
        eng.ghost(st, 'col', K(0))
        eng.ghost(st, 'pos', K(0))
        self.num = LD(self.s, 1, 0)
        self.num.nn = True
        st.auto = ()

    def before_next(self, eng, st, ev):
        if ev.args[0] is not self.op.entry('input'):
            self.report(eng, ev.inst, 'the projection reads from %s' % X.show(ev.args[0]), st, 'input')
        if items(st.auto):
            self.report(eng, ev.inst, 'the projection reads over a record', st, 'skipped')

    def on_next(self, eng, st, ev):
        self.count('input reads', ev.inst)
        st.auto = put(st.auto, end=1) if ev.res.a == 0 else put(st.auto, rec=1)

    def on_copy(self, eng, st, inst, dst, src, n):
        r, off = eng.split(dst)
        if r is not self.op.now(st, 'recordBuffer'):
            return
        self.count('column copies', inst)
        k, pos = eng.ghost(st, 'col'), eng.ghost(st, 'pos')
        col = eng.load(st, X.add(X.add(self.s, K(1)), k), 1)
        sch = self.inp.now(st, 'schema')
        if not st.eq(off, pos):
            self.report(eng, inst, 'output column %s is put at %s, not behind the columns before it' % (X.show(k), X.show(off)), st, 'where')
        if not st.eq(X.sub(src, self.inp.now(st, 'recordBuffer')), offset(sch, col)):
            self.report(eng, inst, 'output column %s is taken from %s' % (X.show(k), X.show(src)), st, 'src')
        if not self.isabs(st, n, self.colsize(st, sch, col)):
            self.report(eng, inst, 'output column %s gets %s bytes' % (X.show(k), X.show(n)), st, 'size')
        if 'rec' not in items(st.auto):
            self.report(eng, inst, 'columns are copied before a record was read', st, 'unread')
        eng.ghost(st, 'col', X.add(k, K(1)))
        eng.ghost(st, 'pos', X.add(pos, strip(n)))

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        if z is not True:
            k = eng.ghost(st, 'col')
            if 'rec' not in a:
                self.report(eng, inst, 'the projection can return without having read a record', st, 'unread')
            if not (st.eq(k, self.num) or st.known(X.ltu(k, self.num)) is False or st.known(X.lts(k, self.num)) is False):
                self.report(eng, inst, 'the projection can return without having copied every column', st, 'columns')
        elif 'end' not in a and not self.nullguard(st):
            self.report(eng, inst, 'the projection can end before its input', st, 'early')


class Scan(QRule):
    """a table scan returns what the iterator returns"""
    name = 'table-scan'

    def begin(self, eng, st):
        self.op = V.of(eng, 'embedDBOperator')
        self.inp = self.op
        for f in ('state', 'recordBuffer', 'schema', 'input'):
            self.op.entry(f).isptr = True
        s = self.op.entry('state')
        self.db, self.it = LD(s, 8, 0, True), LD(X.add(s, K(8)), 8, 0, True)
        st.auto = ()

    def on_next(self, eng, st, ev):
        self.count('iterator reads', ev.inst)
        if ev.name != 'embedDBNext':
            self.report(eng, ev.inst, 'the table scan reads from an operator', st, 'input')
            return
        if items(st.auto):
            self.report(eng, ev.inst, 'the table scan reads over a record', st, 'skipped')
        out = self.op.now(st, 'recordBuffer')
        ks = self.view(self.db, 'embedDBState').now(st, 'keySize')
        want = (self.db, self.it, out, X.add(out, ks))
        for n, (x, y) in enumerate(zip(ev.args, want)):
            if not st.eq(x, y):
                self.report(eng, ev.inst, 'the table scan passes %s as argument %d of embedDBNext, not %s' % (X.show(x), n + 1, X.show(y)), st, 'arg%d' % n)
        st.auto = put(st.auto, end=1) if ev.res.a == 0 else put(st.auto, rec=1)

    def on_ret(self, eng, st, inst, val):
        a = items(st.auto)
        self.count('exits', inst)
        z = st.known(X.eq(val, K(0)))
        if z is not True and 'rec' not in a or z is True and 'end' not in a and not self.nullguard(st):
            self.report(eng, inst, 'the table scan can return something else than the iterator', st, 'result')


class Init(QRule):
    """an operator is initialised with the schema and the buffers it works with"""
    name = 'operator-init'
    kind = None
    fork_malloc = True

    def begin(self, eng, st):
        self.operator(eng, st)
        eng.ghost(st, 'col', K(0))
        eng.ghost(st, 'num', K(0))
        self.sz = {}
        if self.kind == 'join':
            self.info = self.view(self.op.entry('state'), 'keyJoinInfo')
            self.inp2 = self.view(self.info.entry('input2'), 'embedDBOperator')
        elif self.kind == 'aggregate':
            self.info = self.view(self.op.entry('state'), 'aggregateInfo')
        st.auto = ()

    def preds(self, eng, st):
        out = [X.eq(self.op.now(st, f), K(0)) for f in ('recordBuffer', 'schema')]
        if self.kind == 'aggregate':
            out.append(X.eq(self.info.now(st, 'lastRecordBuffer'), K(0)))
        return out

    def contract(self, eng, st, ev):
        if ev.kind == 'slot' and ev.name == 'init':
            eng.havoc_root(st, ev.args[0], 'init')
            return True
        return QRule.contract(self, eng, st, ev)

    def on_new(self, eng, st, ev):
        if X.isk(ev.res):
            return
        a = items(st.auto)
        st.auto = put(st.auto, new=tuple(sorted(set(a.get('new', ())) | {(ev.res, ev.name, ev.args[0])}, key=lambda x: x[0].id)))

    def on_other(self, eng, st, ev):
        a = items(st.auto)
        if ev.kind == 'fn' and ev.name in ('malloc', 'calloc') and not X.isk(ev.res):
            n = ev.args[0] if ev.name == 'malloc' else X.mul(ev.args[0], ev.args[1])
            st.auto = put(st.auto, new=tuple(sorted(set(a.get('new', ())) | {(ev.res, 'malloc', strip(n))}, key=lambda x: x[0].id)))
        elif ev.kind == 'slot' and ev.name == 'init':
            self.count('input inits', ev.inst)
            st.auto = put(st.auto, init=tuple(sorted(set(a.get('init', ())) | {ev.args[0]}, key=lambda x: x.id)))

    def how(self, st, ptr):
        for p, f, arg in items(st.auto).get('new', ()):
            if p is ptr:
                return f, arg
        return None

    def newschema(self, eng, st):
        """schema created on this path, its columnSizes and numCols"""
        sch = self.op.now(st, 'schema')
        if self.how(st, sch) is None:
            return None
        v = self.view(sch, 'embedDBSchema')
        return sch, v.now(st, 'columnSizes'), v.now(st, 'numCols')

    def element(self, eng, st, k):
        """what column k of the output schema has to be"""
        if self.kind == 'projection':
            col = eng.load(st, X.add(self.op.entry('state'), X.add(K(1), k)), 1)
            return self.colsize(st, self.inp.now(st, 'schema'), col)
        f = self.info.now(st, 'functions')
        v = self.view(X.add(f, X.scale(k, eng.m.types.size('%struct.embedDBAggregateFunc'))), 'embedDBAggregateFunc')
        return v.now(st, 'colSize')

    def on_store(self, eng, st, inst, addr, size, val, old):
        if self.kind == 'aggregate':
            f = X.FIELDNAME(addr)
            if f and f[1] == 'colNum' and f[0] == 'embedDBAggregateFunc':
                self.count('columns numbered', inst)
                k = eng.ghost(st, 'num')
                d = X.sub(f[2], self.info.now(st, 'functions'))
                if not st.eq(d, X.scale(k, eng.m.types.size('%struct.embedDBAggregateFunc'))) or not st.eq(strip(val), k):
                    self.report(eng, inst, 'aggregate function at %s gets column number %s' % (X.show(d), X.show(val)), st, 'colnum')
                eng.ghost(st, 'num', X.add(k, K(1)))
                return
        if self.kind not in ('projection', 'aggregate') or size != 1:
            return
        s = self.newschema(eng, st)
        if s is None or X.root_of(addr) is not s[1] or self.how(st, s[1]) is None:
            return
        self.count('column sizes', inst)
        k = eng.ghost(st, 'col')
        if not st.eq(X.sub(addr, s[1]), k) or not st.eq(strip(val), self.element(eng, st, k)):
            self.report(eng, inst, 'column %s of the output schema gets the size %s' % (X.show(X.sub(addr, s[1])), X.show(val)), st, 'element')
        eng.ghost(st, 'col', X.add(k, K(1)))

    def on_copy(self, eng, st, inst, dst, src, n):
        s = self.newschema(eng, st)
        if self.kind != 'join' or s is None or X.root_of(dst) is not s[1]:
            return
        self.count('column sizes', inst)
        off = K(0)
        for i, v in enumerate((self.inp, self.inp2)):
            w = self.view(v.now(st, 'schema'), 'embedDBSchema')
            if src is w.now(st, 'columnSizes'):
                if not st.eq(X.sub(dst, s[1]), off) or not st.eq(strip(n), strip(w.now(st, 'numCols'))):
                    self.report(eng, inst, 'the %s columns of input %d are put at %s' % (X.show(n), i + 1, X.show(X.sub(dst, s[1]))), st, 'element')
                st.auto = put(st.auto, **{'c%d' % i: 1})
                return
            off = strip(w.now(st, 'numCols'))
        self.report(eng, inst, 'columns of the output schema are taken from %s' % X.show(src), st, 'element')

    def atleast(self, st, k, n):
        return st.eq(k, n) or st.known(X.ltu(k, n)) is False or st.known(X.lts(k, n)) is False

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        a = items(st.auto)
        buf, sch = self.op.now(st, 'recordBuffer'), self.op.now(st, 'schema')
        if st.known(X.eq(buf, K(0))) is not False or st.known(X.eq(sch, K(0))) is not False:
            return               # without both the operator is not initialised
        if self.kind == 'aggregate' and st.known(X.eq(self.info.now(st, 'lastRecordBuffer'), K(0))) is True:
            return
        self.count('initialised exits', inst)
        ins = [self.op.entry('input')] + ([self.info.entry('input2')] if self.kind == 'join' else [])
        for i in ins:
            if i not in a.get('init', ()):
                self.report(eng, inst, 'the input %s is not initialised' % X.show(i), st, 'init')
        self.buffer(eng, st, inst, buf, recsize(sch), sch, 'record buffer')
        s = self.newschema(eng, st)
        if self.kind == 'selection':
            h = self.how(st, sch)
            if h is not None and h != ('copySchema', self.inp.now(st, 'schema')):
                self.report(eng, inst, 'the schema of a selection is not that of its input', st, 'schema')
        elif s is not None:
            if self.kind == 'projection':
                num = eng.load(st, self.op.entry('state'), 1)
            elif self.kind == 'aggregate':
                num = strip(self.info.now(st, 'functionsLength'))
            else:
                num = X.add(*[strip(self.view(v.now(st, 'schema'), 'embedDBSchema').now(st, 'numCols')) for v in (self.inp, self.inp2)])
            if not st.eq(strip(s[2]), num):
                self.report(eng, inst, 'the output schema has %s columns, not %s' % (X.show(s[2]), X.show(num)), st, 'numcols')
            h = self.how(st, s[1])
            if h is None or not (st.eq(h[1], num) or st.eq(h[1], strip(s[2]))):
                self.report(eng, inst, 'the column sizes of the output schema have %s bytes' % (X.show(h[1]) if h else 'unknown'), st, 'colalloc')
            if self.kind == 'join' and not fits255(st, num):
                self.report(eng, inst, 'the inputs can have more columns together than the output schema can have', st, 'many')
            if self.kind == 'join':
                if 'c0' not in a or 'c1' not in a:
                    self.report(eng, inst, 'the output schema lacks the columns of an input', st, 'columns')
            elif not self.atleast(st, eng.ghost(st, 'col'), num):
                self.report(eng, inst, 'not every column of the output schema is set', st, 'columns')
            if self.kind == 'aggregate' and not self.atleast(st, eng.ghost(st, 'num'), num):
                self.report(eng, inst, 'not every aggregate function gets its column', st, 'columns')
        if self.kind == 'join' and st.known(X.eq(self.info.now(st, 'firstCall'), K(0))) is not False:
            self.report(eng, inst, 'a join is initialised without starting at the first records', st, 'first')
        if self.kind == 'aggregate':
            isch = self.inp.now(st, 'schema')
            if not st.eq(self.info.now(st, 'isLastRecordUsable'), K(0)):
                self.report(eng, inst, 'an aggregate is initialised with a record left from before', st, 'first')
            if not st.eq(strip(self.info.now(st, 'bufferSize')), recsize(isch)):
                self.report(eng, inst, 'the buffer for the last record has the size %s' % X.show(self.info.now(st, 'bufferSize')), st, 'last-size')
            self.buffer(eng, st, inst, self.info.now(st, 'lastRecordBuffer'), recsize(isch), isch, 'buffer for the last record')

    def buffer(self, eng, st, inst, buf, size, sch, what):
        h = self.how(st, buf)
        if h is None:
            return
        if h != ('createBufferFromSchema', sch) and not (h[0] == 'malloc' and st.eq(h[1], size)):
            self.report(eng, inst, 'the %s is %s(%s)' % (what, h[0], X.show(h[1])), st, 'buffer')


class InitProjection(Init):
    kind = 'projection'


class InitSelection(Init):
    kind = 'selection'


class InitAggregate(Init):
    kind = 'aggregate'


class InitJoin(Init):
    kind = 'join'


class InitScan(QRule):
    """a table scan starts only with a schema that fits the database"""
    name = 'scan-init'
    fork_malloc = True

    def begin(self, eng, st):
        self.op = V.of(eng, 'embedDBOperator')
        self.inp = self.op
        self.db = LD(self.op.entry('state'), 8, 0, True)
        st.auto = ()

    def on_new(self, eng, st, ev):
        if not X.isk(ev.res):
            st.auto = put(st.auto, buf=(ev.res, ev.args[0]))

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        buf, sch = self.op.now(st, 'recordBuffer'), self.op.now(st, 'schema')
        b = items(st.auto).get('buf')
        if b is None or buf is not b[0]:
            return
        self.count('buffers', inst)
        if b[1] is not sch:
            self.report(eng, inst, 'the record buffer of the table scan is made for %s' % X.show(b[1]), st, 'buffer')
        db = self.view(self.db, 'embedDBState')
        c = self.colsize(st, sch, K(0))
        k = strip(db.now(st, 'keySize'))
        if st.known(X.lts(c, K(1))) is not False and st.known(X.lts(K(0), c)) is not True:
            self.report(eng, inst, 'a table scan accepts a signed key column', st, 'signed')
        if not (st.eq(c, k) or any(st.eq(X.op(f, c, *r), k) for f, r in (('fn_llvm.abs.i32', (K(1),)), ('fn_llvm.abs.i32', (K(0),)), ('fn_abs', ())))):
            self.report(eng, inst, 'a table scan accepts a key column of another size than the key', st, 'keysize')
        if not st.eq(recsize(sch), X.add(k, strip(db.now(st, 'dataSize')))):
            self.report(eng, inst, 'a table scan accepts a schema of another size than the records', st, 'recsize')


def fits255(st, n):
    return st.bounds(n)[1] <= 255 or st.known(X.ltu(K(255), n)) is False or st.known(X.lts(K(255), n)) is False or st.known(X.ltu(n, K(256))) is True


class Create(QRule):
    """a new operator or aggregate function holds what it was created with"""
    name = 'create'
    fork_malloc = True
    valuekeys = True

    def begin(self, eng, st):
        st.auto = ()

    def preds(self, eng, st):
        return [X.eq(strip(eng.params[1]), K(w)) for w in (4, 8)] if eng.fn.name == 'createAvgAggregate' else []

    def on_new(self, eng, st, ev):
        if not X.isk(ev.res):
            st.auto = put(st.auto, copy=(ev.res, ev.args[0]))

    def on_copy(self, eng, st, inst, dst, src, n):
        if eng.fn.name == 'createProjectionOperator':
            if src is param(eng, 2):
                st.auto = put(st.auto, cols=(dst, strip(n)))

    def on_other(self, eng, st, ev):
        if ev.kind == 'fn' and ev.name == 'malloc' and not X.isk(ev.res):
            a = items(st.auto)
            st.auto = put(st.auto, new=tuple(sorted(set(a.get('new', ())) | {(ev.res, strip(ev.args[0]))}, key=lambda x: x[0].id)))

    def want(self, eng, st, inst, what, got, exp):
        if not st.eq(strip(got), strip(exp)):
            self.report(eng, inst, '%s is %s, not %s' % (what, X.show(got), X.show(exp)), st, what)

    def on_ret(self, eng, st, inst, val):
        if val is None or st.known(X.eq(val, K(0))) is True:
            return
        self.count('created', inst)
        f = eng.fn.name
        a = items(st.auto)
        P = [strip(p) for p in eng.params]
        if f.endswith('Operator'):
            op = self.view(val, 'embedDBOperator')
            s = op.now(st, 'state')
            s.isptr = True
            self.want(eng, st, inst, 'recordBuffer', op.now(st, 'recordBuffer'), K(0))
            if f == 'createTableScanOperator':
                self.want(eng, st, inst, 'input', op.now(st, 'input'), K(0))
                self.want(eng, st, inst, 'state', eng.load(st, s, 8), P[0])
                self.want(eng, st, inst, 'iterator', eng.load(st, X.add(s, K(8)), 8), P[1])
                if op.now(st, 'schema') is not K(0) and a.get('copy', (0, 0)) != (op.now(st, 'schema'), P[2]):
                    self.report(eng, inst, 'the schema of a table scan is not a copy of the one given', st, 'schema')
                return
            self.want(eng, st, inst, 'input', op.now(st, 'input'), P[0])
            self.want(eng, st, inst, 'schema', op.now(st, 'schema'), K(0))
            if f == 'createProjectionOperator':
                self.want(eng, st, inst, 'numCols', eng.load(st, s, 1), P[1])
                c = a.get('cols')
                if c is None or not st.eq(c[0], X.add(s, K(1))) or not st.eq(c[1], P[1]):
                    self.report(eng, inst, 'the columns of a projection are not those given', st, 'cols')
            elif f == 'createSelectionOperator':
                v = self.view(s, 'selectionInfo')
                for n, x in (('colNum', P[1]), ('operation', P[2]), ('compVal', P[3])):
                    self.want(eng, st, inst, n, v.now(st, n), x)
            elif f == 'createAggregateOperator':
                v = self.view(s, 'aggregateInfo')
                for n, x in (('groupfunc', P[1]), ('functions', P[2]), ('functionsLength', P[3]), ('lastRecordBuffer', K(0))):
                    self.want(eng, st, inst, n, v.now(st, n), x)
                if not fits255(st, P[3]):
                    self.report(eng, inst, 'an aggregation is created for more functions than a schema can have columns', st, 'many')
            elif f == 'createKeyJoinOperator':
                self.want(eng, st, inst, 'input2', self.view(s, 'keyJoinInfo').now(st, 'input2'), P[1])
            return
        ag = self.view(val, 'embedDBAggregateFunc')
        s = ag.now(st, 'state')
        s.isptr = True
        if f == 'createCountAggregate':
            self.want(eng, st, inst, 'colSize', ag.now(st, 'colSize'), K(4))
        elif f == 'createSumAggregate':
            self.want(eng, st, inst, 'colSize', ag.now(st, 'colSize'), K(-8))
            self.want(eng, st, inst, 'colNum', eng.load(st, X.add(s, K(8)), 1), P[0])
        elif f == 'createAvgAggregate':
            self.want(eng, st, inst, 'colNum', self.view(s, 'avgState').now(st, 'colNum'), P[0])
            c = st.val(strip(ag.now(st, 'colSize')))
            if not (X.isk(c) and c.a in (4, 8)):
                self.report(eng, inst, 'an average can have a column of %s bytes' % X.show(c), st, 'colSize')
            else:
                for w in (4, 8):
                    if st.known(X.eq(P[1], K(w))) is True and c.a != w:
                        self.report(eng, inst, 'an average of %d bytes gets a column of %d' % (w, c.a), st, 'colSize')
        else:
            v = self.view(s, 'minMaxState')
            self.want(eng, st, inst, 'colNum', v.now(st, 'colNum'), P[0])
            self.want(eng, st, inst, 'colSize', ag.now(st, 'colSize'), P[1])
            n = dict(a.get('new', ())).get(v.now(st, 'current'))
            if n is None or not self.isabs(st, n, P[1]):
                self.report(eng, inst, 'the current value gets %s bytes' % (X.show(n) if n is not None else 'no'), st, 'current')


# ---------------------------------------------------------------- P29
class AggFunc(QRule):
    """base of the rules about aggregate functions"""
    fork_malloc = False
    kind = None

    def begin(self, eng, st):
        self.ag = self.view(param(eng, 0), 'embedDBAggregateFunc')
        self.sch = param(eng, 1)
        self.rec = param(eng, 2) if len(eng.params) > 2 else None
        self.s = self.ag.entry('state')
        self.s.isptr = True
        if self.kind == 'avg':
            self.v = self.view(self.s, 'avgState')
        elif self.kind in ('min', 'max'):
            self.v = self.view(self.s, 'minMaxState')
        st.auto = ()

    def col(self):
        return LD(X.add(self.s, K(8)), 1, 0) if self.kind == 'sum' else strip(self.v.entry('colNum'))

    def csize(self, st):
        return self.colsize(st, self.sch, self.col())

    def sign(self, st):
        return st.known(X.lts(self.csize(st), K(0)))

    def total(self, eng, st, entry=False):
        a = self.s if self.kind == 'sum' else self.v.addr('sum')
        return LD(a, 8, 0) if entry else eng.load(st, a, 8)

    def tally(self, eng, st, entry=False):
        a = self.s if self.kind == 'count' else self.v.addr('count')
        return LD(a, 4, 0) if entry else eng.load(st, a, 4)


class AggReset(AggFunc):
    name = 'aggregate-reset'

    def on_fill(self, eng, st, inst, dst, byte, n):
        if self.kind not in ('min', 'max'):
            return
        cur = self.v.now(st, 'current')
        if X.root_of(dst) is not cur:
            return
        a = items(st.auto)
        c = self.csize(st)
        self.count('fills', inst)
        b = byte.a & 255 if X.isk(byte) else None
        if dst is cur and self.isabs(st, n, c):
            st.auto = put(st.auto, all=b, top=None)
        elif X.isk(n) and n.a == 1 and self.isabs(st, X.add(X.sub(dst, cur), K(1)), c):
            st.auto = put(st.auto, top=b)
        else:
            self.report(eng, inst, 'the start value is set at %s for %s bytes' % (X.show(dst), X.show(n)), st, 'fill')

    def on_store(self, eng, st, inst, addr, size, val, old):
        if self.kind in ('min', 'max') and size == 1 and X.root_of(addr) is self.v.now(st, 'current'):
            self.on_fill(eng, st, inst, addr, val, K(1))

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        a = items(st.auto)
        if self.kind in ('min', 'max'):
            lo = self.kind == 'max'
            s = self.sign(st)
            ok = a.get('all') == (0 if lo else 255) and (s is True and a.get('top') == (0x80 if lo else 0x7f) or
                                                         s is False and a.get('top') in (None, 0 if lo else 255))
            if not ok:
                self.report(eng, inst, 'a %s can start with something else than the %s value of the column' % (self.kind, 'smallest' if lo else 'largest'),
                            st, 'start')
            return
        if self.kind in ('count', 'avg') and not st.eq(self.tally(eng, st), K(0)):
            self.report(eng, inst, 'the count does not start at 0', st, 'count')
        if self.kind in ('sum', 'avg') and not st.eq(self.total(eng, st), K(0)):
            self.report(eng, inst, 'the sum does not start at 0', st, 'sum')
        if self.kind == 'avg':
            f = st.val(strip(self.v.now(st, 'isSigned')))
            c = self.csize(st)
            if not (X.isk(f) and self.sign(st) is bool(f.a) or f.k == 'b2i' and f.a[0] is X.lts(c, K(0))):
                self.report(eng, inst, 'the sign of the column is not what the average remembers', st, 'sign')


class AggAdd(AggFunc):
    name = 'aggregate-add'

    def preds(self, eng, st):
        if self.kind == 'count':
            return []
        a = items(st.auto)
        return [X.lts(self.csize(st), K(0))]

    def partkey(self, eng, st):
        # sums of different values are not joined
        return tuple(st.known(e) for e in self.preds(eng, st)) + ((self.total(eng, st).id,) if self.kind in ('sum', 'avg') else ())

    def colpos(self):
        return X.add(self.rec, offset(self.sch, self.col()))

    def on_compare(self, eng, st, ev):
        self.count('comparisons', ev.inst)
        a, b, n = ev.args[:3]
        r = ev.res.a
        cur = self.v.now(st, 'current')
        if a is cur:
            a, b, r = b, a, -r
        if b is not cur or not st.eq(a, self.colpos()):
            self.report(eng, ev.inst, '%s is compared with %s' % (X.show(a), X.show(b)), st, 'what')
        c = self.csize(st)
        if not self.isabs(st, n, c):
            self.report(eng, ev.inst, '%s bytes are compared' % X.show(n), st, 'size')
        if self.sign(st) is not (ev.name == 'compareSignedNumbers'):
            self.report(eng, ev.inst, 'the column is compared as %s' % ('signed' if ev.name == 'compareSignedNumbers' else 'unsigned'), st, 'sign')
        st.auto = put(st.auto, cmp=r)

    def on_copy(self, eng, st, inst, dst, src, n):
        r = X.root_of(dst)
        a = items(st.auto)
        if self.kind in ('min', 'max'):
            if r is not self.v.now(st, 'current'):
                return
            self.count('values taken', inst)
            if dst is not r or not st.eq(src, self.colpos()) or not self.isabs(st, n, self.csize(st)):
                self.report(eng, inst, '%s bytes of %s become the current value' % (X.show(n), X.show(src)), st, 'take')
            st.auto = put(st.auto, took=1)
        elif self.kind in ('sum', 'avg') and r is not None and r.k == 's' and r.a[0] == 'alloca' and X.root_of(src) is self.rec:
            self.count('values read', inst)
            if not st.eq(src, self.colpos()) or not self.width(st, n):
                self.report(eng, inst, '%s bytes at %s are added' % (X.show(n), X.show(src)), st, 'read')

    def width(self, st, n):
        """min(|column size|, 8)"""
        n, c = strip(n), self.csize(st)
        if self.isabs(st, n, c):
            return True
        if not (X.isk(n) and n.a == 8):
            return False
        for b in [c, X.scale(c, -1)] + [X.op('fn_llvm.abs.i32', c, K(i)) for i in (0, 1)]:
            if st.known(X.ltu(b, K(8))) is False or st.known(X.lts(b, K(8))) is False:
                return True
        return False

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        a = items(st.auto)
        if self.kind in ('min', 'max'):
            r = a.get('cmp')
            if r is None:
                self.report(eng, inst, 'the value is not compared with the current one', st, 'uncompared')
            elif r == (-1 if self.kind == 'min' else 1) and 'took' not in a:
                self.report(eng, inst, 'a %s value is not taken' % ('smaller' if self.kind == 'min' else 'larger'), st, 'missed')
            elif r == (1 if self.kind == 'min' else -1) and 'took' in a:
                self.report(eng, inst, 'a %s value is taken' % ('larger' if self.kind == 'min' else 'smaller'), st, 'wrong')
            return
        if self.kind in ('count', 'avg') and not st.eq(self.tally(eng, st), X.add(self.tally(eng, st, True), K(1))):
            self.report(eng, inst, 'the count changes from %s to %s' % (X.show(self.tally(eng, st, True)), X.show(self.tally(eng, st))), st, 'count')
        if self.kind == 'count':
            return
        # which number is added for which bytes is decided by the partition analysis (helpers.sums)
        old = self.total(eng, st, True)
        d = X.sub(self.total(eng, st), old)
        if X.isk(d):
            self.report(eng, inst, '%s is added to the sum, not the value of the column' % X.show(d), st, 'added')
        elif X.subst(d, {old: K(7)}) is not d:
            self.report(eng, inst, 'the sum changes by %s, which depends on the sum itself' % X.show(d), st, 'added')


class AggCompute(AggFunc):
    name = 'aggregate-compute'

    def colpos(self):
        return X.add(self.rec, offset(self.sch, strip(self.ag.entry('colNum'))))

    def on_copy(self, eng, st, inst, dst, src, n):
        if X.root_of(dst) is not self.rec:
            return
        self.put(eng, st, inst, dst, strip(n), src, eng.load(st, src, n.a) if X.isk(n) and n.a in (1, 2, 4, 8) else None)

    def on_store(self, eng, st, inst, addr, size, val, old):
        if X.root_of(addr) is self.rec and 'memcpy' not in inst.text:
            self.put(eng, st, inst, addr, K(size), None, val)

    def put(self, eng, st, inst, dst, n, src, val):
        self.count('results', inst)
        if not st.eq(dst, self.colpos()):
            self.report(eng, inst, 'the result is put at %s, not at its column' % X.show(dst), st, 'where')
        if self.kind in ('min', 'max'):
            cur = self.v.now(st, 'current')
            c = self.colsize(st, self.sch, strip(self.ag.entry('colNum')))
            if src is not cur or not (self.isabs(st, n, c) or self.isabs(st, n, strip(self.ag.entry('colSize')))):
                self.report(eng, inst, '%s bytes of %s are output' % (X.show(n), X.show(src) if src is not None else '?'), st, 'what')
        elif self.kind in ('count', 'sum'):
            w = 4 if self.kind == 'count' else 8
            want = self.tally(eng, st, True) if self.kind == 'count' else self.total(eng, st, True)
            if not st.eq(n, K(w)) or val is None or not st.eq(val, want):
                self.report(eng, inst, '%s bytes of %s are output' % (X.show(n), X.show(val) if val is not None else '?'), st, 'what')
        else:
            w = strip(self.ag.entry('colSize'))
            e = st.known(X.eq(w, K(8)))
            ok = X.isk(n) and (n.a == 8 and e is True or n.a == 4 and (e is False or st.known(X.eq(w, K(4))) is True))
            if not ok:
                self.report(eng, inst, 'an average of %s bytes is output' % X.show(n), st, 'size')
            f = st.known(X.eq(strip(self.v.entry('isSigned')), K(0)))
            cop = 'uitofp' if f else 'sitofp'
            tot, cnt = self.total(eng, st, True), self.tally(eng, st, True)
            v = val
            while v is not None and v.k in ('fpext', 'fptrunc'):
                v = v.a[0]
            good = v is not None and f is not None and v.k == 'fdiv' and all(x.k in ('sitofp', 'uitofp') for x in v.a) \
                and v.a[0].k == cop and v.a[0].a[0] is tot and v.a[1].a[0] is cnt and v.a[1].k == 'uitofp'
            if not good:
                self.report(eng, inst, '%s is output as the average' % (X.show(val) if val is not None else '?'), st, 'what')
        st.auto = put(st.auto, out=1)

    def on_ret(self, eng, st, inst, val):
        self.count('exits', inst)
        if 'out' not in items(st.auto):
            self.report(eng, inst, 'no result is output', st, 'none')


def kinds(base):
    out = {}
    for k in ('count', 'sum', 'min', 'max', 'avg'):
        n = base.__name__ + k.capitalize()
        out[k] = globals()[n] = type(n, (base,), {'kind': k, '__module__': __name__})
    return out


RESET, ADD, COMPUTE = kinds(AggReset), kinds(AggAdd), kinds(AggCompute)


class slot:
    """entry point: the function a creator stores in a member of the object it returns"""

    def __init__(self, creator, member, sname):
        self.creator, self.member, self.sname = creator, member, sname
        self.label = '%s->%s' % (creator, member)

    def __call__(self, m):
        import re
        if self.creator not in m.funcs:
            raise Broken('%s not found' % self.creator)
        offs = m.types.layout('%struct.' + self.sname)[0]
        at = {}
        for i in m.funcs[self.creator].insts():
            if i.op == 'gep' and i.ty == '%struct.' + self.sname and i.res:
                ks = re.findall(r'i32 (\d+)', i.text)
                if len(ks) >= 2:
                    f = m.field_at(self.sname, offs[int(ks[1])])
                    at[i.res] = f[0] if f else None
            elif i.op == 'store' and i.a[0].startswith('@') and at.get(i.a[1]) == self.member:
                return i.a[0][1:]
        raise Broken('%s stores no function in %s' % (self.creator, self.member))
