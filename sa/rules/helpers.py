"""Small closed functions: comparators, bitmap helpers, schema functions.  Decided by partition analysis (sa/part.py)."""
import os, re
from ..part import Part, St, Ptr, Lin, Unsupported, Found, UNDEF, simp, bits_of, Fn
from .. import front
from ..base import Broken


def macro(rel, name, default):
    try:
        t = open(os.path.join(front.REPO, rel)).read()
    except OSError:
        return default
    r = re.search(r'^\s*#define\s+%s\s+(\d+)' % name, t, re.M)
    return int(r.group(1)) if r else default


def need(m, *names):
    for n in names:
        if n not in m.funcs:
            raise Broken('%s not found' % n)


def at(m, name, key, msg, rep):
    f = m.funcs[name]
    rep.bad(None, key, msg, loc='%s:%d' % (f.file[6:] if f.file.startswith('/repo/') else f.file, f.line), fn=name)


def describe(st, names):
    out = []
    for v in sorted(st.iv):
        if any(v.startswith(n) for n in names):
            out.append('%s in %d..%d' % ((v,) + tuple(st.iv[v])))
    for (a, b), r in sorted(st.rel.items()):
        if r and r != frozenset((-1, 0, 1)):
            out.append('%s %s %s' % (a, '/'.join({-1: '<', 0: '=', 1: '>'}[x] for x in sorted(r)), b))
    return ', '.join(out[:8]) or 'any input'


def finish(m, p, rep, name):
    for f in p.found:
        rep.bad(f.inst, '%s:%s' % (f.key, name), '%s: %s (%s)' % (name, f.what, describe(f.st, ('a', 'b', 'min', 'max', 'value', 'size'))))
    rep.r.states += p.steps
    rep.r.functions += 1


def sign(p, st, v, w=8):
    """-> set of signs the returned number may have"""
    out = set()
    for s, x in p.view(st, v, w, True, None):
        if isinstance(x, int):
            out.add((x > 0) - (x < 0))
        else:
            lo, hi = p.rng(s, x)
            out |= {k for k, ok in ((-1, lo < 0), (0, lo <= 0 <= hi), (1, hi > 0)) if ok}
    return out


WORD = {-1: 'negative', 0: 'zero', 1: 'positive'}


def comparators(m, rep):
    for name, size in (('int32Comparator', 4), ('int64Comparator', 8)):
        need(m, name)
        p = Part(m)
        st = St()
        a, b = st.add('a', 'bytes', size, (0, 255)), st.add('b', 'bytes', size, (0, 255))
        for s, v in p.run(name, [a, b], st):
            rep.count('outcomes', (name, len(rep._seen.get('outcomes', ()))))
            exp, got = order(p, s, size, 1), sign(p, s, v)
            if exp and (len(exp) > 1 and len(got) == 1 or not got <= exp):
                at(m, name, 'sign:%s' % name, '%s returns a %s number where the first value may be %s the second (%s)' % (
                    name, '/'.join(WORD[x] for x in sorted(got)), '/'.join({-1: 'less than', 0: 'equal to', 1: 'greater than'}[x] for x in sorted(exp)), describe(s, ('a', 'b'))), rep)
        finish(m, p, rep, name)


def digits(st, o, n):
    """the parts of the number that were looked at -> {offset: (bytes, variable)}"""
    out = {}
    for v in st.iv:
        r = re.match(r'%s\[(\d{3})(?::(\d+))?\]$' % o, v)
        if r:
            k, w = int(r.group(1)), int(r.group(2) or 1)
            if k in out:
                raise Unsupported('the same bytes are read in several ways')
            out[k] = (w, v)
    end = 0
    for k in sorted(out):
        if k < end:
            raise Unsupported('the same bytes are read in several ways')
        end = k + out[k][0]
    return out, end


def order(p, st, n, signed):
    """possible orders of two n-byte little-endian numbers under the facts of st"""
    out = set()
    (da, ea), (db, eb) = digits(st, 'a', n), digits(st, 'b', n)
    pos = n
    while pos > 0:
        k = max((k for k in da if k < pos), default=None)
        if k is None or k not in db or k + da[k][0] != pos or da[k][0] != db[k][0]:
            return {-1, 0, 1} | out     # the rest of the number was not looked at
        a, b = da[k][1], db[k][1]
        half = 1 << (8 * da[k][0] - 1)
        ia, ib = st.iv[a], st.iv[b]
        rel = p.getrel(st, a, b)
        if signed and pos == n:
            eq = False
            for sa in (0, 1):
                for sb in (0, 1):
                    x = (max(ia[0], half * sa), min(ia[1], half - 1 + half * sa))
                    y = (max(ib[0], half * sb), min(ib[1], half - 1 + half * sb))
                    if x[0] > x[1] or y[0] > y[1]:
                        continue
                    if sa != sb:
                        if (1 if sa else -1) in rel:
                            out.add(-1 if sa else 1)
                        continue
                    for r, ok in ((-1, x[0] < y[1]), (1, x[1] > y[0])):
                        if ok and r in rel:
                            out.add(r)
                    if 0 in rel and max(x[0], y[0]) <= min(x[1], y[1]):
                        eq = True
            if not eq:
                return out
        else:
            out |= {r for r in rel if r}
            if 0 not in rel:
                return out
        pos = k
    return out | {0}


SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 16, 127)


def numbers(m, rep):
    """the byte-wise comparisons of the query interface and the comparison operators built on them"""
    for name, signed in (('compareUnsignedNumbers', 0), ('compareSignedNumbers', 1)):
        need(m, name)
        for n in SIZES:
            p = Part(m)
            st = St()
            a, b = st.add('a', 'bytes', n, (0, 255)), st.add('b', 'bytes', n, (0, 255))
            p.LIMIT = 400000
            try:
                for s, v in p.run(name, [a, b, n], st):
                    rep.count('outcomes', (name, n, len(rep._seen.get('outcomes', ()))))
                    exp, got = order(p, s, n, signed), sign(p, s, v)
                    if exp and (len(exp) > 1 and len(got) == 1 or not got <= exp):
                        at(m, name, 'sign:%s' % name, '%s of %d bytes returns a %s number where the first value may be %s the second (%s)' % (
                            name, n, '/'.join(WORD[x] for x in sorted(got)), '/'.join({-1: 'less than', 0: 'equal to', 1: 'greater than'}[x] for x in sorted(exp)), describe(s, ('a', 'b'))), rep)
            except Unsupported:
                if n <= 8:
                    raise
            finish(m, p, rep, name)
    need(m, 'compare')
    H = 'src/query-interface/advancedQueries.h'
    ops = {'SELECT_GT': (1,), 'SELECT_LT': (-1,), 'SELECT_GTE': (1, 0), 'SELECT_LTE': (-1, 0), 'SELECT_EQ': (0,), 'SELECT_NEQ': (-1, 1)}
    for k, (op, true) in enumerate(ops.items()):
        c = macro(H, op, k)
        for sg in (0, 1):
            for n in (1, 2, 4, 8):
                p = Part(m)
                st = St()
                a, b = st.add('a', 'bytes', n, (0, 255)), st.add('b', 'bytes', n, (0, 255))
                for s, v in p.run('compare', [a, c, b, sg, n], st):
                    rep.count('outcomes', ('compare', op, sg, n, len(rep._seen.get('outcomes', ()))))
                    exp = {int(r in true) for r in order(p, s, n, sg)}
                    got = {int(x != 0) for x in sign(p, s, v)}
                    if exp and (len(exp) > 1 and len(got) == 1 or not got <= exp):
                        at(m, 'compare', 'op:%s:%d' % (op, sg), 'compare with %s of %s numbers of %d bytes returns %s where it should be %s (%s)' % (
                            op, 'signed' if sg else 'unsigned', n, '/'.join(map(str, sorted(got))), '/'.join(map(str, sorted(exp))), describe(s, ('a', 'b'))), rep)
                finish(m, p, rep, 'compare')


# ---------------------------------------------------------------- bitmaps
# helper suffix -> bytes of the bitmap, bytes of the value it reads
BITMAPS = {'Int8': (1, 2), 'Int16': (2, 4), 'Int64': (8, 4)}


def rd(p, s, o, n):
    r = ()
    for k in range(n):
        r += bits_of(p.load(s, Ptr(o, k), 1, None), 8)
    return r


def bitmaps(m, rep, only=None):
    for suf, (nb, vs) in BITMAPS.items():
        if only not in (None, suf):
            continue
        upd, inb, bld = 'updateBitmap' + suf, 'inBitmap' + suf, 'buildBitmap%sFromRange' % suf
        need(m, upd, inb, bld)
        h = 1 << (8 * vs - 1)
        p = Part(m)
        st = St()
        v, bm = st.add('value', 'num', vs, (-h, h - 1)), st.add('bitmap', 'bits', nb)
        parts = []
        for s, _ in p.run(upd, [v, bm], st):
            b = rd(p, s, 'bitmap', nb)
            ones = frozenset(i for i, x in enumerate(b) if x == 1 and not isinstance(x, tuple) and s.bits.get(('bitmap', i)) != 1)
            for i, x in enumerate(b):
                if x == 0 and not isinstance(x, tuple) and s.bits.get(('bitmap', i)) != 0 or isinstance(x, tuple) and x != ('bitmap', i):
                    at(m, upd, 'clear:%s' % upd, '%s does not keep bit %d of the bitmap (%s)' % (upd, i, describe(s, ('value',))), rep)
            if not ones:
                at(m, upd, 'nobit:%s' % upd, '%s sets no bit (%s)' % (upd, describe(s, ('value',))), rep)
            parts.append((s.iv['value'], ones))
            rep.count('value ranges', (upd, s.iv['value']))
        finish(m, p, rep, upd)
        if p.abort:
            continue
        # membership
        p = Part(m)
        st = St()
        v, bm = st.add('value', 'num', vs, (-h, h - 1)), st.add('bitmap', 'bits', nb)
        for s, r in p.run(inb, [v, bm], st):
            lo, hi = s.iv['value']
            for (a, b), ones in parts:
                if b < lo or hi < a or not ones:
                    continue
                rep.count('membership tests', (inb, len(rep._seen.get('membership tests', ()))))
                facts = {i: s.bits.get(('bitmap', i)) for i in ones}

                def may(k):
                    """can the result be zero / nonzero with the bits of the value all k"""
                    if any(f not in (None, k) for f in facts.values()):
                        return None
                    x = bits_of(r, 8) if isinstance(r, (int, tuple)) else None
                    if x is None:
                        raise Unsupported('result of %s' % inb)
                    return [k if isinstance(y, tuple) and y[1] in ones else (y if not isinstance(y, tuple) else None) for y in x]
                x = may(1)
                if x is not None and 1 not in x:
                    at(m, inb, 'missing:%s' % inb, '%s returns 0 for a value whose bit is set in the bitmap (%s)' % (inb, describe(s, ('value',))), rep)
                x = may(0)
                if x is not None and any(y != 0 for y in x):
                    at(m, inb, 'extra:%s' % inb, '%s returns a nonzero number for a value whose bit is not set in the bitmap (%s)' % (inb, describe(s, ('value',))), rep)
        finish(m, p, rep, inb)
        # ranges
        for hasmin in (0, 1):
            for hasmax in (0, 1):
                p = Part(m)
                st = St()
                lo = st.add('min', 'num', vs, (-h, h - 1)) if hasmin else 0
                hi = st.add('max', 'num', vs, (-h, h - 1)) if hasmax else 0
                bm = st.add('bitmap', 'own', nb)
                try:
                    for s, _ in p.run(bld, [lo, hi, bm], st):
                        try:
                            b = rd(p, s, 'bitmap', nb)
                        except Found:
                            at(m, bld, 'unset:%s' % bld, '%s does not set all of the bitmap (%s)' % (bld, describe(s, ('min', 'max'))), rep)
                            continue
                        mn, mx = s.iv.get('min', (-h, h - 1)), s.iv.get('max', (-h, h - 1))
                        lo1, hi1 = mn[0] if hasmin else -h, mx[1] if hasmax else h - 1
                        rep.count('ranges', (bld, hasmin, hasmax, mn, mx))
                        for (x, y), ones in parts:
                            if max(x, lo1) > min(y, hi1):
                                continue
                            if not any(b[i] == 1 for i in ones):
                                at(m, bld, 'range:%s' % bld, '%s leaves out values %d..%d of the range (%s)' % (bld, max(x, lo1), min(y, hi1), describe(s, ('min', 'max'))), rep)
                except Unsupported as e:
                    raise Broken('%s: %s' % (bld, e))
                finish(m, p, rep, bld)


# ---------------------------------------------------------------- schemas
def schema_obj(st, n, struct, off):
    o = st.add('schema', 'own', 16)
    d = st.add('size', 'bytes', max(n, 0), (-127, 127))
    st.mem['schema'][off['numCols']] = (1, n)
    st.mem['schema'][off['columnSizes']] = (8, Ptr('size', 0))
    return o


def offsets(m):
    f = m.fields.get('embedDBSchema')
    if f is None:
        raise Broken('struct embedDBSchema not found')
    off = {v[0]: k for k, v in f.items()}
    for n in ('numCols', 'columnSizes'):
        if n not in off:
            raise Broken('member %s not found' % n)
    return off


def is_sum(p, st, v, n):
    """is v the sum of the absolute values of the first n sizes?"""
    t, c = {}, 0
    if isinstance(v, int):
        v = Lin(v, {})
    if not isinstance(v, Lin):
        return False
    c = v.c
    t = dict(v.t)
    for i in range(n):
        nm = 'size[%03d]' % i
        lo, hi = st.iv.get(nm, (-127, 127))
        if lo == hi:
            c -= abs(lo)
            continue
        k = t.pop(('abs', nm), 0)
        if k == 1:
            continue
        x = t.pop(('v', nm), 0)
        if k == 0 and (x == 1 and lo >= 0 or x == -1 and hi <= 0):
            continue
        return False
    return c == 0 and not t


COLS = (0, 1, 2, 3, 4, 5, 6)


def schemas(m, rep):
    off = offsets(m)
    for name, args in (('getRecordSizeFromSchema', 0), ('createBufferFromSchema', 0), ('getColOffsetFromSchema', 1)):
        need(m, name)
        for n in COLS + (255,):
            for col in (range(n + 1) if n < 255 else (255,)) if args else (None,):
                p = Part(m)
                p.LIMIT = 300000
                st = St()
                o = schema_obj(st, n, None, off)
                try:
                    for s, v in p.run(name, [o] + ([col] if args else []), st):
                        k = n if col is None else col
                        rep.count('schema results', (name, n, col, len(rep._seen.get('schema results', ()))))
                        if name == 'createBufferFromSchema':
                            if not s.trail or s.trail[-1][0] == 'null':
                                continue
                            if not isinstance(v, Ptr) or v.o != s.trail[-1][0] or v.off:
                                at(m, name, 'result:%s' % name, '%s does not return the buffer it allocates' % name, rep)
                                continue
                            v = s.trail[-1][1]
                        for s1, x in p.view(s, v, 64 if name == 'createBufferFromSchema' else 16, False, None):
                            if not is_sum(p, s1, x, k):
                                at(m, name, 'sum:%s' % name, '%s of %d columns%s is not the sum of the sizes (%s)' % (name, n, '' if col is None else ' for column %d' % col, describe(s1, ('size',))), rep)
                except Unsupported as e:
                    if n < 255:
                        raise Broken('%s: %s' % (name, e))
                finish(m, p, rep, name)
    # copies
    need(m, 'copySchema')
    for n in COLS[1:]:
        p = Part(m)
        st = St()
        o = schema_obj(st, n, None, off)
        for s, v in p.run('copySchema', [o], st):
            if v == 0 and isinstance(v, int):
                continue
            rep.count('schema results', ('copySchema', n))
            if not same_schema(p, s, v, off, n, [Lin(0, {('v', 'size[%03d]' % i): 1}) for i in range(n)], avoid=('schema', 'size')):
                at(m, 'copySchema', 'copy:copySchema', 'copySchema of %d columns does not return a separate copy of the schema' % n, rep)
        finish(m, p, rep, 'copySchema')
    # creation
    need(m, 'embedDBCreateSchema')
    S = macro('src/query-interface/schema.h', 'embedDB_COLUMN_SIGNED', 0)
    U = macro('src/query-interface/schema.h', 'embedDB_COLUMN_UNSIGNED', 1)
    for n in (1, 2, 3):
        p = Part(m, malloc_fails=False)
        st = St()
        a, b = st.add('size', 'bytes', n, (-128, 127)), st.add('bign', 'bytes', n, (-128, 127))
        for s, v in p.run('embedDBCreateSchema', [n, a, b], st):
            rep.count('schema results', ('embedDBCreateSchema', n, len(rep._seen.get('schema results', ()))))
            sz = [s.iv.get('size[%03d]' % i, (-128, 127)) for i in range(n)]
            sg = [s.iv.get('bign[%03d]' % i, (-128, 127)) for i in range(n)]
            wrong = any(h <= 0 for l, h in sz) or any(x == y and x not in (S, U) or y < min(S, U) or x > max(S, U) for x, y in sg)
            right = all(l > 0 for l, h in sz) and all(x == y and x in (S, U) for x, y in sg)
            if isinstance(v, int) and v == 0:
                if right:
                    at(m, 'embedDBCreateSchema', 'refused', 'embedDBCreateSchema refuses a schema that is right (%s)' % describe(s, ('size', 'bign')), rep)
                continue
            if not right:
                at(m, 'embedDBCreateSchema', 'accepted', 'embedDBCreateSchema accepts a schema%s (%s)' % (' that is wrong' if wrong else ' without checking all of it', describe(s, ('size', 'bign'))), rep)
                continue
            if not same_schema(p, s, v, off, n, [Lin(0, {('v', 'size[%03d]' % i): -1 if x[0] == S else 1}) for i, x in enumerate(sg)], avoid=('size', 'bign')):
                at(m, 'embedDBCreateSchema', 'content', 'the schema embedDBCreateSchema returns does not describe the columns given (%s)' % describe(s, ('size', 'bign')), rep)
        finish(m, p, rep, 'embedDBCreateSchema')


def same_schema(p, s, v, off, n, cols, avoid):
    if not isinstance(v, Ptr) or v.off or v.o in s.freed or v.o in avoid:
        return False
    try:
        if p.load(s, Ptr(v.o, off['numCols']), 1, None) != n:
            return False
        d = p.load(s, Ptr(v.o, off['columnSizes']), 8, None)
        if not isinstance(d, Ptr) or d.off or d.o in s.freed or d.o in avoid or d.o == v.o:
            return False
        for i, c in enumerate(cols):
            x = p.load(s, Ptr(d.o, i), 1, None)
            if isinstance(x, int):
                x = Lin(x - 256 if x > 127 else x, {})
            if not isinstance(x, Lin):
                return False
            t = dict(x.t)
            for k, q in c.t:
                t[k] = t.get(k, 0) - q
            t = {k: q for k, q in t.items() if q}
            dc = x.c - c.c
            for k in list(t):
                lo, hi = s.iv[k[1]]
                if lo == hi:
                    dc += t.pop(k) * lo
            if t or dc % 256:
                return False
    except Found:
        return False
    return True


# ---------------------------------------------------------------- sums
def member(m, struct, name):
    f = m.fields.get(struct)
    if f is None:
        raise Broken('struct %s not found' % struct)
    for k, v in f.items():
        if v[0] == name:
            return k
    raise Broken('member %s not found' % name)


def sums(m, rep):
    """the number added to the state is the value of the column, for every column size"""
    soff = offsets(m)
    for create, extra in (('createSumAggregate', []), ('createAvgAggregate', [4])):
        need(m, create)
        for size, n, col in [(x * sg, 2, 1) for x in range(1, 10) for sg in (1, -1)] + [(-2, 1, 0), (3, 3, 2), (-4, 3, 1)]:
            p = Part(m, malloc_fails=False)
            st = St()
            sch = st.add('schema', 'own', 16)
            st.add('sizes', 'zero', n)
            st.mem['sizes'] = {i: (1, 253) for i in range(n)}
            st.mem['sizes'][col] = (1, size & 255)
            st.mem['schema'][soff['numCols']] = (1, n)
            st.mem['schema'][soff['columnSizes']] = (8, Ptr('sizes', 0))
            recd = st.add('record', 'bits', 3 * (n - 1) + abs(size))
            for s, v in p.run(create, [col] + extra, st):
                if not isinstance(v, Ptr):
                    continue
                slots = [p.load(s, Ptr(v.o, v.off + member(m, 'embedDBAggregateFunc', x)), 8, None) for x in ('reset', 'add')]
                for x in slots:
                    if not isinstance(x, Fn) or x.n not in m.funcs:
                        raise Unsupported('the functions of %s' % create)
                for s1, _ in p.run(slots[0].n, [v, sch], s):
                    for s2, _ in p.run(slots[1].n, [v, sch, recd], s1):
                        rep.count('sums', (create, size, n, len(rep._seen.get('sums', ()))))
                        k = min(abs(size), 8)
                        want = []
                        for i in range(64):
                            b = ('record', 24 * col + (i if i < 8 * k else 8 * k - 1))
                            b = s2.bits.get(b, b)
                            want.append(0 if i >= 8 * k and size > 0 else b)
                        q = p.load(s2, Ptr(v.o, v.off + member(m, 'embedDBAggregateFunc', 'state')), 8, None)
                        if not isinstance(q, Ptr):
                            raise Unsupported('the state of %s' % create)
                        got = [c for c in s2.mem[q.o].values() if c[0] == 8]
                        if not any(isinstance(c[1], (int, tuple)) and [s2.bits.get(x, x) for x in bits_of(c[1], 64)] == want for c in got):
                            at(m, slots[1].n, 'value:%s' % slots[1].n, '%s adds something else than the value of the column for %s columns of %d bytes' % (slots[1].n, 'signed' if size < 0 else 'unsigned', abs(size)), rep)
            finish(m, p, rep, create)


class guarded:
    """a job; what the domain cannot express is reported as such"""

    def __init__(self, f, *more):
        self.f, self.more = f, more

    def __call__(self, m, rep):
        try:
            self.f(m, rep, *self.more)
        except Unsupported as e:
            raise Broken('not decided: %s' % e)
        except Found as e:
            rep.bad(e.inst, e.key, e.what)


def bitmap_job(suf):
    return guarded(bitmaps, suf)
