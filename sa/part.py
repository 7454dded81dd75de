"""Partition analysis of small closed functions (comparators, bitmap helpers, schema functions).

An input number is a variable with an interval; a condition on it splits the interval, a comparison of two inputs splits
their order relation, a test of an unknown bit splits that bit.  Everything else in such a function is then a constant, an
affine expression of the inputs or a vector of known and unknown bits, so its loops, which run over constants, are followed
iteration by iteration until no part of the input space is left.  The result is a partition of all inputs with the outcome of
each part.  Nothing is executed and no solver is used; what the domain cannot express raises Unsupported."""
import re


class Unsupported(Exception):
    pass


class Lin:
    """const + sum of coefficient * term, an integer congruent to the register's contents"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, tuple(sorted(((k, v) for k, v in t.items() if v), key=repr))

    def __repr__(self):
        return '%s' % ' + '.join(['%s*%s' % (v, k) for k, v in self.t] + [str(self.c)])


# a term is ('v', var), ('abs', var) or ('f', var, chain), chain being a tuple of (op, constant, base c, base coefficient) applied to the variable
def term_eval(t, x):
    if t[0] == 'v':
        return x
    if t[0] == 'abs':
        return abs(x)
    for op, k, c, m in t[2]:
        x = c + m * x
        if op == 'sdiv':
            x = abs(x) // abs(k) * (1 if (x >= 0) == (k > 0) else -1)
        elif op == 'udiv':
            x //= k
        elif op in ('ashr', 'lshr'):
            x >>= k
        elif op == 'neg':
            x = -x
    return x


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return '&%s+%d' % (self.o, self.off)


class Fn:
    def __init__(self, n):
        self.n = n


class Undef:
    pass


UNDEF = Undef()
# a vector of bits is a tuple of 0, 1 or (object, bit index); constants are plain non-negative integers


def bits_of(v, w):
    if v is UNDEF:
        raise Found(None, 'a value that was not set is used', 'unset')
    if isinstance(v, tuple):
        return v[:w] + (0,) * (w - len(v))
    return tuple((v >> i) & 1 for i in range(w))


def simp(b):
    if all(x in (0, 1) and not isinstance(x, tuple) for x in b):
        return sum(x << i for i, x in enumerate(b))
    return tuple(b)


class St:
    __slots__ = ('iv', 'rel', 'bits', 'mem', 'objs', 'trail', 'freed')

    def __init__(self):
        self.iv, self.rel, self.bits, self.mem, self.objs, self.trail, self.freed = {}, {}, {}, {}, {}, (), ()

    def copy(self):
        s = St()
        s.iv, s.rel, s.bits, s.mem, s.objs, s.trail, s.freed = dict(self.iv), dict(self.rel), dict(self.bits), {k: dict(v) for k, v in self.mem.items()}, dict(self.objs), self.trail, self.freed
        return s

    # objects: name -> (kind, size, info); kind 'num' (one variable), 'bytes' (a variable per byte), 'bits' (unknown bits), 'own' (nothing stored yet)
    def add(self, name, kind, size, info=None):
        self.objs[name] = (kind, size, info)
        self.mem[name] = {}
        if kind == 'num':
            self.iv[name] = info
        return Ptr(name, 0)


class Found(Exception):
    """the function does something no input may make it do"""

    def __init__(self, inst, what, key):
        self.inst, self.what, self.key = inst, what, key


def width(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    return 64


class Part:
    LIMIT = 20000000
    LOOP = 20000        # steps of one path inside one function

    def __init__(self, m, malloc_fails=True):
        self.m = m
        self.steps = 0
        self.found = []
        self.nobj = 0
        self.malloc_fails = malloc_fails
        self.abort = False
        self.cmps = set()

    # ------------------------------------------------------------ numbers
    def rng(self, st, l):
        lo = hi = l.c
        for t, k in l.t:
            a, b = st.iv[t[1]]
            if t[0] == 'abs':
                m = 0 if a <= 0 <= b else min(abs(a), abs(b))
                x, y = m, max(abs(a), abs(b))
            else:
                x, y = term_eval(t, a), term_eval(t, b)
                x, y = min(x, y), max(x, y)
            lo += k * (x if k > 0 else y)
            hi += k * (y if k > 0 else x)
        ds = dict(l.t)
        if len(l.t) == 2:
            (t1, k1), (t2, k2) = l.t
            if t1[0] == t2[0] == 'v' and k1 + k2 == 0 and abs(k1) == 1:
                r = self.getrel(st, t1[1], t2[1])
                if k1 < 0:
                    r = frozenset(-x for x in r)
                if 1 not in r:
                    hi = min(hi, l.c + (0 if 0 in r else -1))
                if -1 not in r:
                    lo = max(lo, l.c + (0 if 0 in r else 1))
        return lo, hi

    def value(self, l, x):
        """of an expression of one variable"""
        return l.c + sum(k * term_eval(t, x) for t, k in l.t)

    @staticmethod
    def onevar(l):
        vs = {t[1] for t, _ in l.t}
        return next(iter(vs)) if len(vs) == 1 else None

    def monotone(self, l):
        """one term that is monotone in its variable"""
        return len(l.t) == 1 and l.t[0][0][0] != 'abs'

    def cut(self, st, l, bound):
        """split the interval of l's variable where l < bound changes -> [(state, l < bound?)]"""
        v = self.onevar(l)
        lo, hi = st.iv[v]
        if l.t[0][0][0] == 'abs':
            if lo < 0 < hi:
                out = []
                for a, b in ((lo, -1), (0, hi)):
                    s = st.copy()
                    s.iv[v] = (a, b)
                    out += self.cut(s, l, bound)
                return out
        a, b = self.value(l, lo) < bound, self.value(l, hi) < bound
        if a == b:
            return [(st, a)]
        x, y = lo, hi           # invariant: value at x behaves like a, at y like b
        while y - x > 1:
            mid = (x + y) // 2
            if (self.value(l, mid) < bound) == a:
                x = mid
            else:
                y = mid
        s1, s2 = st.copy(), st.copy()
        s1.iv[v] = (lo, x)
        s2.iv[v] = (y, hi)
        return [(s1, a), (s2, b)]

    def getrel(self, st, a, b):
        k = (a, b) if a < b else (b, a)
        r = st.rel.get(k, frozenset((-1, 0, 1)))
        (l1, h1), (l2, h2) = st.iv[k[0]], st.iv[k[1]]
        p = set()
        if l1 < h2:
            p.add(-1)
        if h1 > l2:
            p.add(1)
        if max(l1, l2) <= min(h1, h2):
            p.add(0)
        r = r & p
        return frozenset(-x for x in r) if k != (a, b) else r

    def setrel(self, st, a, b, r):
        k = (a, b) if a < b else (b, a)
        st.rel[k] = frozenset(r) if k == (a, b) else frozenset(-x for x in r)

    def lin(self, v):
        return Lin(v, {}) if isinstance(v, int) else v

    def view(self, st, v, w, signed, inst):
        """-> [(state, int or Lin in the range of the type)]"""
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return [(st, v - (1 << w) if signed and v >> (w - 1) else v)]
        if isinstance(v, tuple):
            if all(x in (0, 1) and not isinstance(x, tuple) for x in v):
                return self.view(st, simp(v), w, signed, inst)
            raise Unsupported('%s: a number with unknown bits' % inst.text)
        if not isinstance(v, Lin):
            raise Unsupported('%s: not a number' % inst.text)
        a, b = self.rng(st, v)
        if lo <= a and b <= hi:
            return [(st, v)]
        m = 1 << w
        s = -((a - lo) // m) * m
        if lo <= a + s and b + s <= hi:
            return [(st, Lin(v.c + s, dict(v.t)))]
        x = self.onevar(v)
        if x is None or len(v.t) > 1:
            raise Found(inst, 'a number does not fit its type: the result wraps around', 'wrap')
        out = []
        k = (a - lo) // m
        if (b - lo) // m - k > 64:
            raise Found(inst, 'a number does not fit its type: the result wraps around', 'wrap')
        rest = [st]
        while rest:
            nr = []
            for s0 in rest:
                for s1, below in self.cut(s0, v, lo + (k + 1) * m):
                    if below:
                        out.append((s1, Lin(v.c - k * m, dict(v.t))))
                    else:
                        nr.append(s1)
            # parts of an absolute value may lie below again
            rest = nr
            k += 1
        return out

    def pieces(self, st, l, inst, limit=4200):
        """split until l is a constant -> [(state, int)]"""
        if isinstance(l, int):
            return [(st, l)]
        if not l.t:
            return [(st, l.c)]
        out, work = [], [st]
        while work:
            s = work.pop()
            a, b = self.rng(s, l)
            if a == b:
                out.append((s, a))
                continue
            if self.onevar(l) is None or len(l.t) > 1 or b - a > limit or len(out) > limit:
                raise Unsupported('%s: too many values' % inst.text)
            mid = (a + b) // 2 + 1
            work += [x for x, _ in self.cut(s, l, mid)]
        return out

    def compare(self, st, pred, a, b, w, inst):
        signed = pred[0] == 's'
        out = []
        for s1, x in self.view(st, a, w, signed, inst):
            for s2, y in self.view(s1, b, w, signed, inst):
                if isinstance(x, int) and isinstance(y, int):
                    r = (x > y) - (x < y)
                    out.append((s2, self.pred(pred, r)))
                    continue
                x1, y1 = self.lin(x), self.lin(y)
                t = dict(x1.t)
                for k, c in y1.t:
                    t[k] = t.get(k, 0) - c
                d = Lin(x1.c - y1.c, t)
                self.cmps.add(inst.id)
                lo, hi = self.rng(s2, d)
                poss = {self.pred(pred, r) for r, ok in ((-1, lo < 0), (0, lo <= 0 <= hi), (1, hi > 0)) if ok}
                if len(poss) == 1:
                    out.append((s2, poss.pop()))
                    continue
                if self.onevar(d) is not None and len(d.t) == 1:
                    for s3, neg in self.cut(s2, d, 0):
                        if neg:
                            out.append((s3, self.pred(pred, -1)))
                        elif self.pred(pred, 0) == self.pred(pred, 1):
                            out.append((s3, self.pred(pred, 1)))
                        else:
                            for s4, z in self.cut(s3, d, 1):
                                out.append((s4, self.pred(pred, 0 if z else 1)))
                    continue
                if len(d.t) == 2 and d.c == 0 and d.t[0][1] + d.t[1][1] == 0 and all(t[0] == 'v' for t, _ in d.t):
                    (t1, k1), (t2, k2) = d.t
                    p, q = (t1[1], t2[1]) if k1 > 0 else (t2[1], t1[1])
                    rel = self.getrel(s2, p, q)
                    for val in (0, 1):
                        rr = {r for r in rel if self.pred(pred, r) == val}
                        if rr:
                            s3 = s2.copy()
                            self.setrel(s3, p, q, rr)
                            out.append((s3, val))
                    continue
                odd = [t for t, c in d.t if t[0] != 'v']
                if odd:
                    t = odd[0]
                    one = Lin(0, {t: 1})
                    a, b = self.rng(s2, one)
                    if b - a <= 300:
                        for s3, c in self.pieces(s2, one, inst):
                            out += self.compare(s3, pred, *[Lin(z.c + dict(z.t).get(t, 0) * c, {k: q for k, q in z.t if k != t}) if isinstance(z, Lin) else z for z in (x, y)], w, inst)
                        continue
                raise Unsupported('%s: comparison of %r' % (inst.text, d))
        return out

    @staticmethod
    def pred(p, r):
        p = p[-2:]
        return int({'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[p])

    # ------------------------------------------------------------ memory
    def check(self, st, p, n, inst, write=False):
        if not isinstance(p, Ptr):
            raise Found(inst, 'a null pointer or something that is not a pointer is used as an address', 'null')
        if p.o not in st.objs:
            self.constant(st, p.o)
        kind, size, info = st.objs[p.o]
        if p.off < 0 or p.off + n > size:
            raise Found(inst, '%s %d bytes at offset %d of %s, which has %d' % ('writes' if write else 'reads', n, p.off, p.o, size), 'outside')
        if p.o in st.freed:
            raise Found(inst, 'memory is used after it was freed', 'freed')

    def constant(self, st, name):
        """a constant array of the module"""
        const, text = self.m.globals.get(name[1:], (False, ''))[:2]
        r = re.search(r'\bconstant \[(\d+) x (i\d+)\] (zeroinitializer|\[([^\]]*)\])', text)
        if not const or not r:
            raise Unsupported('%s: not a constant array of numbers' % name)
        n, w = int(r.group(1)), width(r.group(2)) // 8
        st.objs[name] = ('zero', n * w, None)
        st.mem[name] = {}
        for k, x in enumerate(r.group(4).split(',') if r.group(4) else ()):
            st.mem[name][k * w] = (w, int(x.split()[1]) & ((1 << 8 * w) - 1))

    def word(self, st, o, off, n, info):
        """n bytes of an input as one number"""
        v = '%s[%03d:%d]' % (o, off, n)
        st.iv.setdefault(v, (0, (1 << 8 * n) - 1))
        return Lin(0, {('v', v): 1})

    def load(self, st, p, n, inst):
        self.check(st, p, n, inst)
        kind, size, info = st.objs[p.o]
        cells = st.mem[p.o]
        c = cells.get(p.off)
        if c is not None and c[0] == n:
            return c[1]
        if not any(o < p.off + n and p.off < o + s for o, (s, _) in cells.items()):
            if kind == 'num':
                if p.off == 0 and n == size:
                    return Lin(0, {('v', p.o): 1})
                raise Unsupported('%s: part of a number' % inst.text)
            if kind == 'bytes':
                if n == 1:
                    v = '%s[%03d]' % (p.o, p.off)
                    st.iv.setdefault(v, info)
                    return Lin(0, {('v', v): 1})
                if info == (0, 255):
                    return self.word(st, p.o, p.off, n, info)
                raise Unsupported('%s: several bytes at once' % inst.text)
            if kind == 'bits':
                return tuple(st.bits.get((p.o, p.off * 8 + i), (p.o, p.off * 8 + i)) for i in range(n * 8))
            if kind == 'zero':
                return 0
            return UNDEF
        first = cells.get(p.off)
        if first is not None and first[0] == 1 and isinstance(first[1], Lin) and n > 1:
            # the bytes of an input, put together one by one
            names = []
            for i in range(n):
                c = cells.get(p.off + i)
                l = c[1] if c is not None and c[0] == 1 else None
                names.append(l.t[0][0][1] if isinstance(l, Lin) and l.c == 0 and len(l.t) == 1 and l.t[0][0][0] == 'v' and l.t[0][1] == 1 else None)
            r = re.match(r'(.+)\[(\d{3})\]$', names[0] or '')
            if r and st.objs[r.group(1)][2] == (0, 255) and all(x == '%s[%03d]' % (r.group(1), int(r.group(2)) + i) for i, x in enumerate(names)) and all(st.iv.get(x, (0, 255)) == (0, 255) for x in names):
                for x in names:
                    st.iv.pop(x, None)        # nothing is known of the single bytes
                return self.word(st, r.group(1), int(r.group(2)), n, (0, 255))
        b = ()
        for i in range(n):
            b += self.byte(st, p.o, p.off + i, inst)
        return simp(b)

    def byte(self, st, o, off, inst):
        for k, (s, v) in st.mem[o].items():
            if k <= off < k + s:
                if isinstance(v, (int, tuple)):
                    return bits_of(v, s * 8)[(off - k) * 8:(off - k) * 8 + 8]
                if v is UNDEF:
                    raise Found(inst, 'reads memory that was not set', 'unset')
                raise Unsupported('%s: part of a stored value' % inst.text)
        v = self.load(st, Ptr(o, off), 1, inst)
        if isinstance(v, (int, tuple)):
            return bits_of(v, 8)
        if v is UNDEF:
            raise Found(inst, 'reads memory that was not set', 'unset')
        raise Unsupported('%s: part of a number' % inst.text)

    def store(self, st, p, n, v, inst):
        self.check(st, p, n, inst, True)
        cells = st.mem[p.o]
        for k in [k for k, (s, _) in cells.items() if k < p.off + n and p.off < k + s]:
            s, old = cells[k]
            if k < p.off or k + s > p.off + n:
                if not isinstance(old, (int, tuple)):
                    raise Unsupported('%s: overwrites part of a value' % inst.text)
                bs = bits_of(old, s * 8)
                for i in range(s):
                    if not p.off <= k + i < p.off + n:
                        cells[k + i] = (1, simp(bs[i * 8:i * 8 + 8]))
            if k in cells and p.off <= k < p.off + n:
                del cells[k]
        cells[p.off] = (n, v)

    def copy(self, st, d, s, n, inst):
        if n == 0:
            return
        self.check(st, s, n, inst)
        self.check(st, d, n, inst, True)
        kind, size, info = st.objs[s.o]
        if n in (1, 2, 4, 8):
            try:
                v = self.load(st, s, n, inst)
                return self.store(st, d, n, v, inst)
            except Unsupported:
                pass
        vals = [self.load(st, Ptr(s.o, s.off + i), 1, inst) for i in range(n)]
        for i, v in enumerate(vals):
            self.store(st, Ptr(d.o, d.off + i), 1, v, inst)

    # ------------------------------------------------------------ instructions
    def val(self, env, s):
        if s[0] == '%':
            return env[s]
        if s in ('true', 'false'):
            return int(s == 'true')
        if s == 'null':
            return 0
        if s in ('undef', 'poison'):
            return UNDEF
        if s == 'zeroinitializer':
            return 0
        if s[0] == '@':
            n = s[1:]
            return Fn(n) if n in self.m.funcs or n in self.m.decls else Ptr('@' + n, 0)
        try:
            return int(s)
        except ValueError:
            raise Unsupported('operand %s' % s)

    def binop(self, st, inst, op, a, b, w):
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return [(st, UNDEF)]
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            raise Unsupported('%s: arithmetic on a pointer' % inst.text)
        if op in ('add', 'sub', 'mul'):
            if isinstance(a, tuple) or isinstance(b, tuple):
                return self.bitadd(st, inst, op, a, b, w)
            nsw = ' nsw ' in inst.text
            out = []
            for s1, x in self.view(st, a, w, True, inst) if nsw else [(st, a)]:
                for s2, y in self.view(s1, b, w, True, inst) if nsw else [(s1, b)]:
                    x1, y1 = self.lin(x), self.lin(y)
                    if op == 'mul':
                        if x1.t and y1.t:
                            raise Unsupported('%s: product' % inst.text)
                        if x1.t:
                            x1, y1 = y1, x1
                        k = x1.c
                        if not nsw and k >> (w - 1):
                            k -= 1 << w
                        r = Lin(k * y1.c, {t: k * c for t, c in y1.t})
                    else:
                        sg = 1 if op == 'add' else -1
                        c2 = y1.c
                        if not y1.t and not nsw and c2 & M and (c2 & M) >> (w - 1):
                            c2 = (c2 & M) - (1 << w)
                        t = dict(x1.t)
                        for k, c in y1.t:
                            t[k] = t.get(k, 0) + sg * c
                        r = Lin(x1.c + sg * c2, t)
                    if nsw:
                        lo, hi = self.rng(s2, r)
                        if lo < -(1 << w - 1) or hi > (1 << w - 1) - 1:
                            raise Found(inst, 'a signed %s overflows for some inputs' % {'add': 'addition', 'sub': 'subtraction', 'mul': 'multiplication'}[op], 'overflow')
                    out.append((s2, r if r.t else r.c & M))
            return out
        if op in ('and', 'or', 'xor'):
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Lin):
                    if isinstance(q, int) and op == 'and' and q & M == M:
                        return [(st, p)]
                    if isinstance(q, int) and q & M == 0:
                        return [(st, p if op != 'and' else 0)]
                    if isinstance(q, int) and op == 'and' and q & M == 1 << (w - 1):
                        return [(s2, 1 << (w - 1) if self.rng(s2, self.lin(x))[1] < 0 else 0) for s1, x in self.view(st, p, w, True, inst)
                                for s2, _ in (self.cut(s1, x, 0) if isinstance(x, Lin) else [(s1, 0)])]
                    out = []
                    if op == 'and' and isinstance(q, int) and (q & M) & ((q & M) - 1) == 0:
                        # one bit of a number: constant between multiples of it
                        for s1, x in self.view(st, p, w, False, inst):
                            sh = (q & M).bit_length() - 1
                            y = self.mono(x, 'lshr', sh, s1, inst) if isinstance(x, Lin) else x >> sh
                            for s2, c in self.pieces(s1, y, inst):
                                out.append((s2, (c & 1) << sh))
                        return out
                    for s1, x in self.view(st, p, w, False, inst):
                        for s2, c in self.pieces(s1, x, inst):
                            out += self.binop(s2, inst, op, c, q, w)
                    return out
            if isinstance(a, int) and isinstance(b, int):
                return [(st, {'and': a & b, 'or': a | b, 'xor': a ^ b}[op] & M)]
            x, y = bits_of(a if not isinstance(a, int) else a & M, w), bits_of(b if not isinstance(b, int) else b & M, w)
            r = []
            for p, q in zip(x, y):
                if isinstance(p, int) and isinstance(q, tuple):
                    p, q = q, p
                if isinstance(p, int):
                    r.append({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
                elif isinstance(q, int):
                    if op == 'and':
                        r.append(p if q else 0)
                    elif op == 'or':
                        r.append(1 if q else p)
                    elif q == 0:
                        r.append(p)
                    else:
                        out = []
                        for k in (0, 1):
                            s2 = st.copy()
                            s2.bits[p] = k
                            out += self.binop(s2, inst, op, self.setbit(a, p, k), self.setbit(b, p, k), w)
                        return out
                elif p == q:
                    r.append(0 if op == 'xor' else p)
                else:
                    raise Unsupported('%s: two unknown bits' % inst.text)
            return [(st, simp(r))]
        if op in ('shl', 'lshr', 'ashr'):
            out = []
            for s0, n in self.view(st, b, w, False, inst):
                for s1, n in self.pieces(s0, n, inst):
                    if n >= w:
                        raise Found(inst, 'a shift by %d bits of a number of %d' % (n, w), 'shift')
                    if isinstance(a, tuple):
                        x = a
                        x = (0,) * n + x[:w - n] if op == 'shl' else x[n:] + ((x[-1] if op == 'ashr' else 0),) * n
                        out.append((s1, simp(x)))
                    elif isinstance(a, int):
                        v = a & M
                        if op == 'shl':
                            out.append((s1, v << n & M))
                        elif op == 'lshr' or not v >> (w - 1):
                            out.append((s1, v >> n))
                        else:
                            out.append((s1, ((v - (1 << w)) >> n) & M))
                    elif op == 'shl':
                        out += self.binop(s1, inst, 'mul', a, 1 << n, w)
                    else:
                        for s2, x in self.view(s1, a, w, op == 'ashr', inst):
                            out.append((s2, self.mono(x, op, n, s2, inst) if isinstance(x, Lin) else (x >> n) & M))
            return out
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            sg = op[0] == 's'
            out = []
            for s1, x in self.view(st, a, w, sg, inst):
                for s2, y in self.view(s1, b, w, sg, inst):
                    for s3, y in self.pieces(s2, y, inst):
                        if y == 0:
                            raise Found(inst, 'a division by zero', 'div')
                        if isinstance(x, int):
                            q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
                            out.append((s3, (q if op.endswith('div') else x - q * y) & M))
                            continue
                        q = self.mono(x, op[0] + 'div', y, s3, inst)
                        if op.endswith('div'):
                            out.append((s3, q))
                        else:
                            t = dict(x.t)
                            for k, c in q.t:
                                t[k] = t.get(k, 0) - y * c
                            for s4, c in self.pieces(s3, q, inst):
                                out.append((s4, Lin(x.c - y * c, dict(x.t))))
            return out
        raise Unsupported(inst.text)

    def bitadd(self, st, inst, op, a, b, w):
        """a constant added to a vector whose bits from the lowest one of the constant on are known, or few"""
        if op == 'add' and isinstance(a, int):
            a, b = b, a
        if op == 'mul' or not isinstance(a, tuple) or not isinstance(b, int):
            raise Unsupported('%s: arithmetic on unknown bits' % inst.text)
        b &= (1 << w) - 1
        if b == 0:
            return [(st, a)]
        k = (b & -b).bit_length() - 1
        open_ = [x for x in bits_of(a, w)[k:] if isinstance(x, tuple)]
        if len(set(open_)) > 8:
            raise Unsupported('%s: arithmetic on unknown bits' % inst.text)
        if open_:
            out = []
            for v in (0, 1):
                s = st.copy()
                s.bits[open_[0]] = v
                x = self.setbit(a, open_[0], v)
                out += self.bitadd(s, inst, op, x, b, w) if isinstance(x, tuple) else self.binop(s, inst, op, x, b, w)
            return out
        x = bits_of(a, w)
        hi = sum(v << i for i, v in enumerate(x[k:]))
        hi = (hi + (b >> k if op == 'add' else -(b >> k))) & ((1 << w - k) - 1)
        return [(st, simp(x[:k] + tuple((hi >> i) & 1 for i in range(w - k))))]

    def mono(self, x, op, k, st, inst):
        if len(x.t) != 1 or x.t[0][0][0] == 'abs':
            raise Unsupported('%s: of several inputs' % inst.text)
        t, c = x.t[0]
        chain = t[2] if t[0] == 'f' else ()
        return Lin(0, {('f', t[1], chain + ((op, k, x.c, c),)): 1})

    def cast(self, st, inst, op, fw, tw, v):
        if v is UNDEF or isinstance(v, (Ptr, Fn)) or op == 'bitcast':
            if isinstance(v, Ptr) and op in ('ptrtoint', 'trunc'):
                raise Unsupported(inst.text)
            return [(st, v)]
        if op == 'trunc':
            if isinstance(v, int):
                return [(st, v & ((1 << tw) - 1))]
            if isinstance(v, tuple):
                return [(st, simp(v[:tw]))]
            return [(st, v)]
        if op in ('zext', 'sext'):
            if isinstance(v, tuple):
                return [(st, simp(v + ((v[-1] if op == 'sext' else 0),) * (tw - fw)))]
            return [(s, x & ((1 << tw) - 1) if isinstance(x, int) else x) for s, x in self.view(st, v, fw, op == 'sext', inst)]
        raise Unsupported(inst.text)

    def gep(self, st, env, inst):
        base = self.val(env, inst.a[0])
        idx = inst.a[1]
        T = self.m.types
        outs = [(st, 0)]
        ty = inst.ty
        for n, (ity, iv) in enumerate(idx):
            v = self.val(env, iv)
            if n > 0 and ty.startswith(('%', '{')):
                el = T.structs[ty] if ty.startswith('%') else None
                if el is None:
                    raise Unsupported(inst.text)
                offs = T.layout(ty)[0]
                outs = [(s, o + offs[v]) for s, o in outs]
                ty = el[v].strip()
                continue
            if n > 0:
                if not ty.startswith('['):
                    raise Unsupported(inst.text)
                ty = ty[1:-1].split(' x ', 1)[1]
            size = T.size(ty)
            no = []
            for s, o in outs:
                for s1, x in self.view(s, v, width(ity), True, inst):
                    for s2, c in self.pieces(s1, x, inst):
                        no.append((s2, o + c * size))
            outs = no
        res = []
        for s, o in outs:
            if isinstance(base, Ptr):
                res.append((s, Ptr(base.o, base.off + o)))
            elif base == 0 and o == 0:
                res.append((s, 0))
            else:
                raise Found(inst, 'an address is computed from a null pointer', 'null')
        return res

    def icmp(self, st, inst, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise Found(inst, 'a condition depends on a value that was not set', 'unset')
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if pred not in ('eq', 'ne'):
                raise Unsupported(inst.text)
            same = isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.off == b.off
            if isinstance(a, Fn) and isinstance(b, Fn):
                same = a.n == b.n
            return [(st, int(same == (pred == 'eq')))]
        w = width(ty)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, Lin) or isinstance(b, Lin):
                raise Unsupported(inst.text)
            # decide the unknown bits
            x = next(v for v in (a, b) if isinstance(v, tuple))
            bit = next(v for v in x if isinstance(v, tuple))
            out = []
            for k in (0, 1):
                s = st.copy()
                s.bits[bit] = k
                out += self.icmp(s, inst, pred, ty, self.setbit(a, bit, k), self.setbit(b, bit, k))
            return out
        return self.compare(st, pred if len(pred) == 3 else 'u' + pred, a, b, w, inst) if pred not in ('eq', 'ne') else self.equal(st, pred, a, b, w, inst)

    def equal(self, st, pred, a, b, w, inst):
        # equality holds in both views; take the one in which the numbers fit
        for v in ('s', 'u'):
            try:
                if all(not isinstance(x, Lin) or self.fits(st, x, w, v == 's') for x in (a, b)):
                    return self.compare(st, v + pred, a, b, w, inst)
            except Found:
                pass
        return self.compare(st, 's' + pred, a, b, w, inst)

    def fits(self, st, l, w, signed):
        a, b = self.rng(st, l)
        return (-(1 << w - 1) <= a and b < 1 << w - 1) if signed else (0 <= a and b < 1 << w)

    @staticmethod
    def setbit(v, bit, k):
        return simp(tuple(k if x == bit else x for x in v)) if isinstance(v, tuple) else v

    # ------------------------------------------------------------ functions
    def run(self, name, args, st, depth=0):
        """-> yields (state, result)"""
        fn = self.m.funcs[name]
        if depth > 12:
            raise Unsupported('recursion in %s' % name)
        env = {p[1]: a for p, a in zip(fn.params, args)}
        work = [(st, env, fn.entry, 0, None, 0)]
        while work:
            st, env, blk, idx, prev, n = work.pop()
            try:
                yield from self.path(fn, st, env, blk, idx, prev, n, work, depth)
            except Found as f:
                if not hasattr(f, 'st'):
                    f.st = st
                self.found.append(f)
                if f.key == 'loop':
                    self.abort = True
            if self.abort:
                return

    def path(self, fn, st, env, blk, idx, prev, n, work, depth):
        while True:
            if idx == 0 and blk.phis and prev is not None:
                new = {}
                for p in blk.phis:
                    v = next(v for v, b in p.a if b == prev)
                    new[p.res] = self.val(env, v)
                env = dict(env)
                env.update(new)
            while idx < len(blk.insts):
                i = blk.insts[idx]
                idx += 1
                self.steps += 1
                n += 1
                if self.steps > self.LIMIT:
                    raise Unsupported('%s: more than %d steps' % (fn.name, self.LIMIT))
                if n > self.LOOP:
                    raise Found(i, 'a loop does not end within %d steps for some inputs' % self.LOOP, 'loop')
                op = i.op
                if op == 'ret':
                    yield st, (None if i.a is None else self.val(env, i.a))
                    return
                if op == 'unreachable':
                    return
                if op in ('br', 'cbr', 'switch'):
                    if op == 'br':
                        nxt = [(st, i.a[0])]
                    elif op == 'cbr':
                        c = self.val(env, i.a[0])
                        if c is UNDEF:
                            raise Found(i, 'a condition depends on a value that was not set', 'unset')
                        c = c & 1 if isinstance(c, int) else c
                        if not isinstance(c, int):
                            raise Unsupported(i.text)
                        nxt = [(st, i.a[1] if c else i.a[2])]
                    else:
                        v = self.val(env, i.a[0])
                        rest, nxt = [st], []
                        for k, lab in i.a[2]:
                            nr = []
                            for s in rest:
                                for s1, t in self.icmp(s, i, 'eq', i.ty, v, k & ((1 << width(i.ty)) - 1)):
                                    (nxt.append((s1, lab)) if t else nr.append(s1))
                            rest = nr
                        nxt += [(s, i.a[1]) for s in rest]
                    pb = blk.name
                    for s, lab in nxt[1:]:
                        work.append((s, dict(env), fn.bmap[lab], 0, pb, n))
                    st, blk, prev, idx = nxt[0][0], fn.bmap[nxt[0][1]], pb, 0
                    break
                outs = self.step(st, env, i, fn, depth)
                if not outs:
                    return
                for s, v in outs[1:]:
                    e = dict(env)
                    if i.res:
                        e[i.res] = v
                    # continue after this instruction later
                    work.append((s, e, blk, idx, None, n))
                st = outs[0][0]
                if i.res:
                    env = dict(env) if len(outs) > 1 else env
                    env[i.res] = outs[0][1]
            else:
                raise Unsupported('block without end')

    def step(self, st, env, i, fn, depth):
        op = i.op
        if op == 'alloca':
            self.nobj += 1
            st = st.copy()
            p = st.add('local%d' % self.nobj, 'own', self.m.types.size(i.ty))
            return [(st, p)]
        if op == 'load':
            p = self.val(env, i.a)
            st = st.copy() if isinstance(p, Ptr) and st.objs.get(p.o, ('',))[0] == 'bytes' else st
            return [(st, self.load(st, p, self.m.types.size(i.ty), i))]
        if op == 'store':
            st = st.copy()
            self.store(st, self.val(env, i.a[1]), self.m.types.size(i.ty), self.val(env, i.a[0]), i)
            return [(st, None)]
        if op == 'gep':
            return self.gep(st, env, i)
        if op == 'bin':
            return self.binop(st, i, i.a[0], self.val(env, i.a[1]), self.val(env, i.a[2]), width(i.ty))
        if op == 'icmp':
            return self.icmp(st, i, i.a[0], i.ty, self.val(env, i.a[1]), self.val(env, i.a[2]))
        if op == 'cast':
            return self.cast(st, i, i.a[0], width(i.a[1]), width(i.ty), self.val(env, i.a[2]))
        if op == 'select':
            c = self.val(env, i.a[0])
            if not isinstance(c, int):
                raise Unsupported(i.text)
            return [(st, self.val(env, i.a[1] if c & 1 else i.a[2]))]
        if op == 'call':
            return self.call(st, env, i, depth)
        raise Unsupported(i.text)

    def call(self, st, env, i, depth):
        callee, args = i.a
        a = [self.val(env, v) for t, v in args if t != 'metadata']
        n = callee[1:] if callee[0] == '@' else None
        if n is None:
            f = self.val(env, callee)
            if not isinstance(f, Fn):
                raise Unsupported('%s: unknown function' % i.text)
            n = f.n
        if n in self.m.funcs:
            return list(self.run(n, a, st, depth + 1))
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
            st = st.copy()
            k = a[2]
            if not isinstance(k, int):
                raise Unsupported('%s: unknown length' % i.text)
            self.copy(st, a[0], a[1], k, i)
            return [(st, a[0])]
        if n.startswith('llvm.memset') or n == 'memset':
            st = st.copy()
            if not isinstance(a[2], int) or not isinstance(a[1], int):
                raise Unsupported(i.text)
            for k in range(a[2]):
                self.store(st, Ptr(a[0].o, a[0].off + k), 1, a[1] & 255, i)
            return [(st, a[0])]
        if n in ('malloc', 'calloc'):
            size = a[0] if n == 'malloc' else a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else a[0] if a[1] == 1 else a[1]
            self.nobj += 1
            s = st.copy()
            name = 'heap%d' % self.nobj
            p = s.add(name, 'own' if n == 'malloc' else 'zero', size if isinstance(size, int) else 1 << 40, size)
            s.trail = s.trail + ((name, size),)
            out = [(s, p)]
            if self.malloc_fails:
                s2 = st.copy()
                s2.trail = s2.trail + (('null', 0),)
                out.append((s2, 0))
            return out
        if n == 'free':
            st = st.copy()
            if isinstance(a[0], Ptr):
                if a[0].o in st.freed:
                    raise Found(i, 'memory is freed twice', 'freed')
                st.freed = st.freed + (a[0].o,)
            return [(st, None)]
        if n.startswith('llvm.abs') or n in ('abs', 'labs'):
            w = width(i.ty)
            out = []
            for s1, x in self.view(st, a[0], w, True, i):
                if isinstance(x, int):
                    out.append((s1, abs(x)))
                    continue
                lo, hi = self.rng(s1, x)
                if lo == -(1 << w - 1):
                    raise Found(i, 'the absolute value overflows for some inputs', 'overflow')
                if lo >= 0:
                    out.append((s1, x))
                elif hi <= 0:
                    out.append((s1, Lin(-x.c, {k: -c for k, c in x.t})))
                elif len(x.t) == 1 and x.c == 0 and abs(x.t[0][1]) == 1 and x.t[0][0][0] == 'v':
                    out.append((s1, Lin(0, {('abs', x.t[0][0][1]): 1})))
                else:
                    for s2, neg in self.cut(s1, x, 0):
                        out.append((s2, Lin(-x.c, {k: -c for k, c in x.t}) if neg else x))
            return out
        if n in ('memcmp', 'bcmp') and isinstance(a[2], int):
            out, rest = [], [st]
            for k in range(a[2]):
                nr = []
                for s in rest:
                    s = s.copy()
                    x, y = (self.load(s, Ptr(q.o, q.off + k), 1, i) for q in a[:2])
                    for s1, t in self.compare(s, 'ult', x, y, 8, i):
                        if t:
                            out.append((s1, 0xffffffff))
                            continue
                        for s2, t2 in self.compare(s1, 'ugt', x, y, 8, i):
                            (out.append((s2, 1)) if t2 else nr.append(s2))
                rest = nr
            return out + [(s, 0) for s in rest]
        for nm, pr, first in (('llvm.umin', 'ult', 1), ('llvm.umax', 'ult', 0), ('llvm.smin', 'slt', 1), ('llvm.smax', 'slt', 0)):
            if n.startswith(nm):
                return [(s, a[0] if bool(t) == bool(first) else a[1]) for s, t in self.icmp(st, i, pr, i.ty, a[0], a[1])]
        if n in ('printf', 'puts', 'putchar', 'fprintf'):
            return [(st, 0)]
        raise Unsupported('call of %s' % n)
