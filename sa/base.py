"""Shared helpers for the rules: names of state fields, flags, page slots."""
from math import gcd

from . import expr as X
from .expr import K, LD
from .engine import Rule, Engine, State, EngineError, INF

ANCHORS = ['splineAdd', 'splineFind', 'splineErase', 'splineInit', 'splineClose', 'splinePrint']

F_INDEX, F_MAXMIN, F_SUM, F_BMAP, F_VDATA, F_RESET, F_RLC, F_BIN, F_NOCLEAN = 1, 2, 4, 8, 16, 32, 64, 128, 256

# per storage file: (file handle field, next page id, available pages, number of pages, first valid page id)
FILES = {
    'dataFile': dict(next='nextDataPageId', avail='numAvailDataPages', num='numDataPages', min='minDataPageId',
                     cache='bufferedPageId', what='data'),
    'indexFile': dict(next='nextIdxPageId', avail='numAvailIndexPages', num='numIndexPages', min='minIndexPageId',
                      cache='bufferedIndexPageId', what='index'),
    'varFile': dict(next='nextVarPageId', avail='numAvailVarPages', num='numVarPages', min=None,
                    cache='bufferedVarPage', what='variable-data'),
}


class Broken(Exception):
    """the analysis has lost its anchor: neither pass nor violation"""


class S:
    """view of the embedDBState of the analysed entry function"""

    def __init__(self, eng, ptr=None):
        self.eng = eng
        m = eng.m
        if 'embedDBState' not in m.fields:
            raise Broken('struct embedDBState not found')
        if ptr is None:
            for p in eng.params:
                if p.ptee == 'embedDBState':
                    ptr = p
                    break
        if ptr is None:
            raise Broken('%s has no embedDBState parameter' % eng.fn.name)
        self.p = ptr
        self.off = {v[0]: (o, v[1], v[2]) for o, v in m.fields['embedDBState'].items()}

    def addr(self, f):
        if f not in self.off:
            raise Broken('embedDBState.%s not found' % f)
        return X.add(self.p, K(self.off[f][0]))

    def size(self, f):
        return self.off[f][1]

    def entry(self, f):
        """value of the field when the entry function was called"""
        pt = self.off[f][2]
        ptr = f in ('buffer', 'spl', 'dataFile', 'indexFile', 'varFile', 'fileInterface')
        return LD(self.addr(f), self.off[f][1], 0, ptr, self.eng.m.pointee(pt))

    def now(self, st, f):
        e = self.entry(f)
        return self.eng.load(st, self.addr(f), self.off[f][1], e.isptr)

    def field(self, addr):
        """field name if addr is a member of this state"""
        d = X.sub(addr, self.p)
        if X.isk(d):
            f = self.eng.m.field_at('embedDBState', d.a)
            return f[0] if f else None
        return None

    def flagcond(self, mask):
        return X.ne0(X.binop('and', self.entry('parameters'), K(mask), 32))

    def flag(self, st, mask):
        """True/False/None: is the configuration flag known set"""
        e = X.binop('and', self.entry('parameters'), K(mask), 32)
        k = st.known(X.eq(e, K(0)))
        return None if k is None else not k

    # page buffer ------------------------------------------------------
    def buf(self):
        return self.entry('buffer')

    def slot_of(self, addr):
        """(slot number, offset in slot) of an address in the page buffer, or None"""
        r, off = self.eng.split(addr)
        if r is not self.buf():
            return None
        return self.eng.slot(off)

    def slotaddr(self, n, off=0):
        return X.add(X.add(self.buf(), X.scale(self.entry('pageSize'), n)), K(off))

    def count(self, st, slot):
        return self.eng.load(st, self.slotaddr(slot, 4), 2)

    def pageid(self, st, slot):
        return self.eng.load(st, self.slotaddr(slot, 0), 4)


def fieldname(addr):
    f = X.FIELDNAME(addr)
    return f[1] if f else None


def leaf_fields(e):
    """names of the embedDBState members an expression is computed from"""
    out = set()
    for l in X.origins(e):
        if l.k == 'ld':
            f = X.FIELDNAME(l.a[0])
            if f and f[0] == 'embedDBState':
                out.add(f[1])
    return out


class DBRule(Rule):
    """rule over functions taking an embedDBState"""

    def start(self, eng, st):
        self.s = S(eng)
        self.preset(eng, st)
        self.begin(eng, st)

    def preset(self, eng, st):
        """invariants every initialised state satisfies (established by embedDBInit, property P13)"""
        s = self.s
        for f, lo in (('pageSize', 1), ('eraseSizeInPages', 1), ('numDataPages', 1), ('recordSize', 1), ('headerSize', 1),
                      ('keySize', 1), ('maxRecordsPerPage', 1), ('dataSize', 1)):
            s.entry(f).nn = True
            st._add(s.entry(f), lo, None, None)
        for f in ('numIndexPages', 'numVarPages', 'bitmapSize', 'numAvailDataPages', 'numAvailIndexPages', 'numAvailVarPages',
                  'nextDataPageId', 'minDataPageId', 'nextIdxPageId', 'minIndexPageId', 'nextVarPageId', 'currentVarLoc',
                  'variableDataHeaderSize', 'maxIdxRecordsPerPage', 'nextRLCPhysicalPageLocation', 'rlcPhysicalStartingPage'):
            s.entry(f).nn = True
        st._add(s.buf(), 1, None, None)

    def begin(self, eng, st):
        st.auto = ()

    def on_effects(self, eng, st, ev):
        """effects of a function of the SUMMARY: the members it may modify and the page buffers"""
        mod = modfields(eng.m, ev.name)
        s = self.s
        for f in mod:
            e = s.entry(f)
            eng.store(st, s.addr(f), s.size(f), eng.fresh(st, ('m', f), 64, e.isptr))
        eng.havoc_root(st, s.buf(), 'call')


def perm_or_temp(rule, st, ev):
    """classify a data-file write: permanent page or record-level-consistency page"""
    f = leaf_fields(ev.args[1])
    s = rule.s
    if ev.info['file'] != 'dataFile':
        return 'perm'
    if f & {'nextRLCPhysicalPageLocation', 'rlcPhysicalStartingPage'}:
        return 'temp'
    if 'nextDataPageId' in f:
        return 'perm'
    cur = s.now(st, 'nextRLCPhysicalPageLocation')
    if ev.args[1] is cur or X.isk(X.sub(ev.args[1], cur)) and not X.isk(cur):
        return 'temp'
    if s.now(st, 'rlcPhysicalStartingPage') is ev.args[1]:
        return 'temp'
    return 'perm'


# ---------------------------------------------------------------- modified fields
_modf = {}


def modfields(m, fname, sname='embedDBState'):
    """members of `sname` that the function or its callees may modify (syntactically)"""
    import re
    key = (id(m), fname, sname)
    if key in _modf:
        return _modf[key]
    out, todo, seen = set(), [fname], set()
    idx = {}
    for off, v in m.fields[sname].items():
        idx[off] = v[0]
    offs = m.types.layout('%struct.' + sname)[0]
    while todo:
        f = todo.pop()
        if f in seen or f not in m.funcs:
            continue
        seen.add(f)
        fn = m.funcs[f]
        uses = {}
        for i in fn.insts():
            if i.op == 'gep' and i.ty == '%struct.' + sname and len(i.a[1]) >= 2 and i.res:
                ks = re.findall(r'i32 (\d+)', i.text)
                if len(ks) >= 2 and int(ks[1]) < len(offs) and offs[int(ks[1])] in idx:
                    uses[i.res] = idx[offs[int(ks[1])]]
        for i in fn.insts():
            if i.op == 'call':
                c = i.a[0]
                if c[0] == '@':
                    todo.append(c[1:])
            if i.op in ('load', 'dbg') or '@llvm.dbg' in i.text:
                continue
            for t in re.findall(r'%[\w.$-]+', i.text.split(' = ', 1)[-1]):
                if t in uses:
                    if i.op == 'call' and 'memcpy' in i.text and i.a[1][0][1] != t:
                        continue
                    out.add(uses[t])
    _modf[key] = out
    return out


# ---------------------------------------------------------------- linear entailment
def _tight(t, c):
    """sum t + c <= 0 over the integers, divided by the gcd of its coefficients"""
    g = 0
    for k in t.values():
        g = gcd(g, abs(k))
    if g > 1:
        return {x: k // g for x, k in t.items()}, -((-c) // g)
    return t, c


def eqknown(st, a, b, depth=2):
    """are a and b equal? True/False/None, also by known equations between their terms"""
    d = X.sub(a, b)
    k = st.known(X.eq(a, b))
    if k is not None or depth == 0 or X.isk(d):
        return k
    ls = frozenset(X.terms(d)[1])
    n = len(ls)
    for f, (lo, hi, _) in st.bd.items():
        if lo != hi or f.k != 'lin' or len(f.a[1]) < 2:
            continue
        ts = X.terms(f)[1]
        if not (ls & frozenset(ts)):
            continue
        e = X.sub(f, K(lo))
        for g in (X.add(d, e), X.sub(d, e)):
            if len(X.terms(g)[1]) <= n:
                k = eqknown(st, g, K(0), depth - 1)
                if k is not None:
                    return k
    return None


def ltknown(st, a, b):
    """is a below b (unsigned)? True/False/None, also by the other names of a and b"""
    k = st.known(X.ltu(a, b))
    if k is not None:
        return k

    def names(x):
        out = [x]
        for f, (lo, hi, _) in st.bd.items():
            if lo == hi == 0 and f.k == 'lin' and len(f.a[1]) == 2 and f.a[0] == 0:
                (t, n), (u, m) = f.a[1]
                if n == -m:
                    out += [u] if t is x else [t] if u is x else []
        return out
    for x in names(a):
        for y in names(b):
            k = st.known(X.ltu(x, y))
            if k is not None:
                return k
    return None


def below(st, d, extra=(), depth=5, width=400):
    """do the known facts imply d <= -1? Combines them linearly, starting from the opposite (d >= 0).
    Quotients by constants are taken as what they are defined to be."""
    if not isinstance(d, X.E):
        d = K(d)
    lo, hi, _ = (d.a, d.a, ()) if X.isk(d) else st.bounds(d)
    if hi <= -1:
        return True
    if lo >= 0 or X.isk(d):
        return False
    facts = {}

    def add(t, c):
        t, c = _tight(t, c)
        for x in t:
            facts.setdefault(x, []).append((t, c))
    atoms = set()

    def seen(x):
        if x in atoms:
            return
        atoms.add(x)
        if x.nn:
            add({x: -1}, 0)
        if x.k == 'udiv' and X.isk(x.a[1]) and x.a[1].a > 0:
            n, q = X.terms(x.a[0]), x.a[1].a
            t = {y: -k for y, k in n[1].items()}
            t[x] = t.get(x, 0) + q
            add(t, -n[0])                                   # q*x - n <= 0
            t2 = dict(n[1])
            t2[x] = t2.get(x, 0) - q
            add(t2, n[0] - (q - 1))                         # n - q*x <= q-1
            for y in n[1]:
                seen(y)
        if x.k == 'sdiv' and X.isk(x.a[1]) and x.a[1].a > 0:
            n, q = X.terms(x.a[0]), x.a[1].a                # rounds to zero
            t = {y: -k for y, k in n[1].items()}
            t[x] = t.get(x, 0) + q
            add(t, -n[0] - (q - 1))
            t2 = dict(n[1])
            t2[x] = t2.get(x, 0) - q
            add(t2, n[0] - (q - 1))
            for y in n[1]:
                seen(y)
    for f, (l, h, ex) in list(st.bd.items()) + [(f, b) for f, b in extra]:
        c, t = X.terms(f)
        if l < 1 and 0 in ex and c >= 0 and all(k > 0 and x.nn for x, k in t.items()):
            l = 1                                           # not negative and not 0
        if h < INF:
            add(dict(t), c - int(h))
        if l > -INF:
            add({x: -k for x, k in t.items()}, int(l) - c)
        for x in t:
            seen(x)
    c, t = X.terms(d)
    for x in t:
        seen(x)
    start = _tight({x: -k for x, k in t.items()}, -c)
    done = set()
    layer = [start]
    for _ in range(depth):
        nxt = []
        for t, c in layer:
            for x, k in t.items():
                for ft, fc in facts.get(x, ()):
                    fk = ft[x]
                    if (k > 0) == (fk > 0):
                        continue
                    r = {}
                    for y, n in t.items():
                        r[y] = n * abs(fk)
                    for y, n in ft.items():
                        r[y] = r.get(y, 0) + n * abs(k)
                    r = {y: n for y, n in r.items() if n}
                    rc = c * abs(fk) + fc * abs(k)
                    if not r:
                        if rc > 0:
                            return True
                        continue
                    if len(r) > 5:
                        continue
                    r, rc = _tight(r, rc)
                    key = (tuple(sorted((y.id, n) for y, n in r.items())), rc)
                    if key not in done:
                        done.add(key)
                        nxt.append((r, rc))
        layer = sorted(nxt, key=lambda z: len(z[0]))[:width]
        if not layer:
            return False
    return False
