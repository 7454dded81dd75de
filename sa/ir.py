"""Parser for the LLVM IR (textual, LLVM 18) that clang emits for the C units of
/repo.  Only the instruction forms clang produces for C at -O1 with the LLVM
passes disabled, after `opt -passes=sroa,inline,...`, are understood; anything
else raises IRError (analysis-broken), never a silent skip."""
import re


class IRError(Exception):
    pass


# --------------------------------------------------------------------------
# types
class Types:
    def __init__(self):
        self.structs = {}      # name -> [elem types]
        self._layout = {}

    def size(self, t):
        return self._sa(t)[0]

    def _sa(self, t):
        t = t.strip()
        if t.startswith('i') and t[1:].isdigit():
            n = int(t[1:])
            b = max(1, (n + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, p
        if t == 'ptr':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'double':
            return 8, 8
        if t == 'x86_fp80':
            return 16, 16
        if t.startswith('['):
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            s, a = self._sa(m.group(2))
            return int(m.group(1)) * s, a
        if t.startswith('%'):
            return self.layout(t)[1:]
        if t.startswith('{'):
            offs, s, a = self._compute(split_top(t[1:-1]))
            return s, a
        raise IRError('type size of %r' % t)

    def _compute(self, elems):
        off, al, offs = 0, 1, []
        for e in elems:
            s, a = self._sa(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return offs, (off + al - 1) // al * al, al

    def layout(self, name):
        """-> (offsets, size, align)"""
        if name not in self._layout:
            if name not in self.structs:
                raise IRError('unknown struct %s' % name)
            self._layout[name] = self._compute(self.structs[name])
        return self._layout[name]


def split_top(s, sep=','):
    out, depth, cur, inq = [], 0, [], False
    for ch in s:
        if inq:
            cur.append(ch)
            if ch == '"':
                inq = False
            continue
        if ch == '"':
            inq = True
            cur.append(ch)
        elif ch in '([{<':
            depth += 1
            cur.append(ch)
        elif ch in ')]}>':
            depth -= 1
            cur.append(ch)
        elif ch == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    tail = ''.join(cur).strip()
    if tail:
        out.append(tail)
    return out


# --------------------------------------------------------------------------
class Inst:
    __slots__ = ('id', 'op', 'res', 'ty', 'a', 'dbg', 'fn', 'blk', 'text')

    def __init__(self, iid, op, res, ty, a, dbg, text):
        self.id, self.op, self.res, self.ty, self.a, self.dbg = iid, op, res, ty, a, dbg
        self.text = text
        self.fn = self.blk = None

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs', 'preds', 'fn', 'order')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.insts, self.phis, self.succs, self.preds = [], [], [], []
        self.order = 0

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return '<%s>' % self.name


class Function:
    def __init__(self, name, retty, params, dbg, module):
        self.name, self.retty, self.params, self.dbg, self.module = name, retty, params, dbg, module
        self.blocks = []
        self.bmap = {}
        self.defs = {}       # ssa name -> Inst
        self.param_types = {}  # name -> ctype string/struct
        self.entry = None

    def insts(self):
        for b in self.blocks:
            for i in b.phis:
                yield i
            for i in b.insts:
                yield i


_SSA = r'%(?:"[^"]*"|[-A-Za-z$._0-9]+)'
re_strip_md = re.compile(r'(?:,\s*)?![a-zA-Z_.][\w.]*\s+!\d+')
re_dbg = re.compile(r'!dbg !(\d+)')
re_res = re.compile(r'^(%s) = (.*)$' % _SSA)

PARAM_ATTRS = ('noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'immarg', 'inreg', 'readnone', 'allocptr')


def parse_operand(s):
    """'i32 %x' / 'ptr noundef @f' / 'i32 noundef signext 5' -> (type, value-string)"""
    s = s.strip()
    if s.startswith('metadata'):
        return ('metadata', s[8:].strip())
    # type is first token (may be [..] or {..} or %struct)
    if s[0] in '[{<':
        close = {'[': ']', '{': '}', '<': '>'}[s[0]]
        d = 0
        for i, ch in enumerate(s):
            if ch == s[0]:
                d += 1
            elif ch == close:
                d -= 1
                if d == 0:
                    break
        ty, rest = s[:i + 1], s[i + 1:].strip()
    else:
        p = s.split(None, 1)
        ty = p[0]
        rest = p[1] if len(p) > 1 else ''
    changed = True
    while changed:
        changed = False
        for a in PARAM_ATTRS:
            if rest.startswith(a + ' ') or rest == a:
                rest = rest[len(a):].strip()
                changed = True
        m = re.match(r'(align \d+|dereferenceable(?:_or_null)?\(\d+\)|byval\([^)]*\)|sret\([^)]*\))\s*', rest)
        if m:
            rest = rest[m.end():]
            changed = True
    return (ty, rest)


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = Types()
        self.funcs = {}
        self.decls = set()
        self.globals = {}       # name -> (is_constant, text, linkage)
        self.md = {}
        self.md_cache = {}
        self._parse(text)
        self._debug_types()

    # ---------------------------------------------------------------- parse
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        nid = 0
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'(%%%s|%s) = type (.*)$' % ('x', _SSA), ln)
                if m:
                    body = m.group(2).strip()
                    if body.startswith('{'):
                        self.types.structs[m.group(1)] = split_top(body[1:-1])
                    i += 1
                    continue
            if ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', ln)
                if m:
                    rest = m.group(2)
                    isconst = re.search(r'\bconstant\b', rest.split('"')[0]) is not None
                    self.globals[m.group(1)] = (isconst, rest)
            elif ln.startswith('declare'):
                m = re.search(r'@([-\w$.]+)\(', ln)
                self.decls.add(m.group(1))
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                m = re.match(r'define (.*?)@([-\w$.]+)\((.*)\)([^()]*)\{$', ln)
                if not m:
                    raise IRError('define: ' + ln)
                ret = m.group(1).split()[-1]
                params = []
                for p in split_top(m.group(3)):
                    if p == '...':
                        continue
                    ty, v = parse_operand(p)
                    params.append((ty, v))
                d = re_dbg.search(m.group(4))
                f = Function(m.group(2), ret, params, int(d.group(1)) if d else None, self)
                f.linkage = 'internal' if ' internal ' in ' ' + m.group(1) else 'external'
                i += 1
                cur = None
                while lines[i] != '}':
                    s = lines[i]
                    i += 1
                    if not s.strip() or s.startswith(';'):
                        continue
                    if not s.startswith(' '):
                        bm = re.match(r'("[^"]*"|[-\w$.]+):', s)
                        if not bm:
                            raise IRError('label: ' + s)
                        cur = Block(bm.group(1), f)
                        cur.order = len(f.blocks)
                        f.blocks.append(cur)
                        f.bmap[cur.name] = cur
                        continue
                    if cur is None:
                        cur = Block('0', f)
                        f.blocks.append(cur)
                        f.bmap[cur.name] = cur
                    st = s.strip()
                    if st.startswith('switch'):
                        while not lines[i - 1].rstrip().split(', !')[0].endswith(']'):
                            st += ' ' + lines[i].strip()
                            i += 1
                    if 'call void @llvm.dbg.' in st or '@llvm.lifetime.' in st or '@llvm.assume' in st:
                        continue
                    inst = self._inst(st, nid)
                    nid += 1
                    if inst is None:
                        continue
                    inst.fn, inst.blk = f, cur
                    if inst.op == 'phi':
                        cur.phis.append(inst)
                    else:
                        cur.insts.append(inst)
                    if inst.res:
                        f.defs[inst.res] = inst
                f.entry = f.blocks[0]
                for b in f.blocks:
                    b.succs = [f.bmap[x] for x in self._succ(b.term)]
                for b in f.blocks:
                    for s2 in b.succs:
                        if b not in s2.preds:
                            s2.preds.append(b)
                self.funcs[f.name] = f
            i += 1

    @staticmethod
    def _succ(t):
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'cbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            out = [t.a[1]]
            for _, l in t.a[2]:
                if l not in out:
                    out.append(l)
            return out
        return []

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
            'fpext', 'fptrunc', 'addrspacecast'}

    def _inst(self, s, nid):
        full = s
        d = re_dbg.search(s)
        dbg = int(d.group(1)) if d else None
        s = re_strip_md.sub('', s).rstrip(' ,')
        res = None
        m = re_res.match(s)
        if m:
            res, s = m.group(1), m.group(2)
        w = s.split(None, 1)
        op = w[0]
        rest = w[1] if len(w) > 1 else ''
        if op in ('tail', 'notail', 'musttail'):
            op, rest = rest.split(None, 1)
        mk = lambda o, ty, a: Inst(nid, o, res, ty, a, dbg, full)
        if op == 'phi':
            ty, r = rest.split(None, 1) if rest[0] not in '[{' else parse_operand(rest)
            inc = []
            for x in split_top(r):
                x = x.strip()[1:-1]
                v, b = split_top(x)
                inc.append((v.strip(), b.strip()[1:]))
            return mk('phi', ty, inc)
        if op == 'alloca':
            return mk('alloca', split_top(rest)[0], None)
        if op == 'load':
            rest = rest.replace('volatile ', '')
            p = split_top(rest)
            return mk('load', p[0], parse_operand(p[1])[1])
        if op == 'store':
            rest = rest.replace('volatile ', '')
            p = split_top(rest)
            ty, v = parse_operand(p[0])
            return mk('store', ty, (v, parse_operand(p[1])[1]))
        if op == 'getelementptr':
            rest = rest.replace('inbounds ', '')
            p = split_top(rest)
            base = parse_operand(p[1])[1]
            return mk('gep', p[0], (base, [parse_operand(x) for x in p[2:]]))
        if op in self.BIN:
            for fl in ('nsw ', 'nuw ', 'exact ', 'fast ', 'nnan ', 'ninf ', 'nsz ', 'arcp ', 'contract ', 'afn ', 'reassoc ', 'disjoint '):
                rest = rest.replace(fl, '')
            p = split_top(rest)
            ty, a = parse_operand(p[0])
            i = mk('bin', ty, (op, a, p[1].strip()))
            return i
        if op in ('icmp', 'fcmp'):
            pred, r = rest.split(None, 1)
            p = split_top(r)
            ty, a = parse_operand(p[0])
            return mk(op, ty, (pred, a, p[1].strip()))
        if op in self.CAST:
            rest = rest.replace('nneg ', '').replace('nuw ', '').replace('nsw ', '')
            m2 = re.match(r'(.*) to (\S+)$', rest)
            ty, v = parse_operand(m2.group(1))
            return mk('cast', m2.group(2), (op, ty, v))
        if op == 'select':
            p = split_top(rest)
            c = parse_operand(p[0])[1]
            ty, a = parse_operand(p[1])
            return mk('select', ty, (c, a, parse_operand(p[2])[1]))
        if op == 'br':
            if rest.startswith('label'):
                return mk('br', None, (rest.split()[1][1:],))
            p = split_top(rest)
            return mk('cbr', None, (parse_operand(p[0])[1], p[1].split()[1][1:], p[2].split()[1][1:]))
        if op == 'switch':
            m2 = re.match(r'(\S+) (\S+), label (%s) \[(.*)\]' % _SSA, rest)
            cases = []
            for c in re.findall(r'\S+ (-?\d+|true|false), label (%s)' % _SSA, m2.group(4)):
                cases.append((int(c[0]), c[1][1:]))
            return mk('switch', m2.group(1), (m2.group(2), m2.group(3)[1:], cases))
        if op == 'ret':
            if rest == 'void':
                return mk('ret', 'void', None)
            ty, v = parse_operand(rest)
            return mk('ret', ty, v)
        if op == 'unreachable':
            return mk('unreachable', None, None)
        if op == 'freeze':
            ty, v = parse_operand(rest)
            return mk('cast', ty, ('bitcast', ty, v))
        if op == 'fneg':
            ty, v = parse_operand(rest)
            return mk('cast', ty, ('fneg', ty, v))
        if op == 'call':
            # [attrs] retty [fnty] callee(args) [attrs]
            r = rest
            m2 = re.match(r'((?:(?:signext|zeroext|noundef|noalias|nonnull|fast|nnan|ninf|nsz) )*)', r)
            r = r[m2.end():]
            # return type
            if r[0] in '[{<':
                ty, r = parse_operand(r)
            else:
                ty, r = r.split(None, 1)
            m3 = re.match(r'\(([^()]*)\)\s*', r)      # vararg function type
            if m3:
                r = r[m3.end():]
            m4 = re.match(r'(@[-\w$.]+|%s)\(' % _SSA, r)
            if not m4:
                raise IRError('call: ' + full)
            callee = m4.group(1)
            d2, j = 0, m4.end() - 1
            inq = False
            for k in range(j, len(r)):
                ch = r[k]
                if ch == '"':
                    inq = not inq
                if inq:
                    continue
                if ch == '(':
                    d2 += 1
                elif ch == ')':
                    d2 -= 1
                    if d2 == 0:
                        break
            args = [parse_operand(x) for x in split_top(r[j + 1:k])]
            return mk('call', ty, (callee, args))
        if op == 'extractvalue':
            p = split_top(rest)
            ty, v = parse_operand(p[0])
            return mk('extractvalue', ty, (v, int(p[1])))
        raise IRError('unknown instruction: ' + full)

    # ---------------------------------------------------------------- debug
    def mdget(self, ref):
        """parse metadata node -> dict of fields (strings)"""
        if isinstance(ref, str):
            if not ref.startswith('!'):
                return None
            ref = int(ref[1:])
        if ref in self.md_cache:
            return self.md_cache[ref]
        t = self.md.get(ref)
        d = {}
        if t is None:
            self.md_cache[ref] = None
            return None
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', t)
        if m:
            d['_'] = m.group(1)
            for p in split_top(m.group(2)):
                k, _, v = p.partition(':')
                d[k.strip()] = v.strip()
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}$', t)
            d['_'] = 'list'
            d['items'] = split_top(m.group(1)) if m else []
        self.md_cache[ref] = d
        return d

    def loc(self, inst):
        """-> (file, line) innermost source location"""
        return self.locd(inst.dbg)

    def locd(self, dbg):
        if dbg is None:
            return ('?', 0)
        d = self.mdget(dbg)
        if not d or d['_'] != 'DILocation':
            return ('?', 0)
        line = int(d.get('line', '0'))
        sc = self.mdget(d['scope'])
        seen = 0
        fileref = None
        while sc and seen < 50:
            if 'file' in sc:
                fileref = sc['file']
                break
            sc = self.mdget(sc['scope']) if 'scope' in sc else None
            seen += 1
        fn = '?'
        if fileref:
            f = self.mdget(fileref)
            fn = f['filename'].strip('"')
        return (fn, line)

    def instat(self, fn, iid):
        f = self.funcs.get(fn)
        if f is None:
            return None
        for b in f.blocks:
            for i in list(b.phis) + list(b.insts):
                if i.id == iid:
                    return i
        return None

    def locstr(self, inst):
        f, l = self.loc(inst)
        if f.startswith('/repo/'):
            f = f[6:]
        return '%s:%d' % (f, l)

    def srcfunc(self, inst):
        """name of the source function the instruction comes from (before inlining)"""
        d = self.mdget(inst.dbg) if inst.dbg is not None else None
        if not d:
            return inst.fn.name
        sc = self.mdget(d['scope'])
        k = 0
        while sc and sc['_'] != 'DISubprogram' and k < 50:
            sc = self.mdget(sc['scope']) if 'scope' in sc else None
            k += 1
        return sc['name'].strip('"') if sc and 'name' in sc else inst.fn.name

    def _debug_types(self):
        """struct member names/types and function parameter types, from DWARF"""
        self.fields = {}      # struct cname -> {offset: (field, size, type)}
        self._cty = {}
        for k in list(self.md):
            t = self.md[k]
            if 'DICompositeType(tag: DW_TAG_structure_type' in t:
                d = self.mdget(k)
                if 'elements' not in d:
                    continue
                nm = d.get('name', '').strip('"')
                els = self.mdget(d['elements'])
                fl = {}
                for e in els['items']:
                    ed = self.mdget(e)
                    off = int(ed.get('offset', '0')) // 8
                    fl[off] = (ed['name'].strip('"'), int(ed.get('size', '0')) // 8, ed.get('baseType'))
                d['_fields'] = fl
                if nm:
                    self.fields.setdefault(nm, fl)
        for k in list(self.md):
            t = self.md[k]
            if 'DIDerivedType(tag: DW_TAG_typedef' in t:
                d = self.mdget(k)
                b = self.mdget(d['baseType']) if 'baseType' in d else None
                if b and b.get('tag') == 'DW_TAG_structure_type' and '_fields' in b:
                    self.fields.setdefault(d['name'].strip('"'), b['_fields'])
                    b.setdefault('_tdname', d['name'].strip('"'))
        for f in self.funcs.values():
            f.ptypes = []
            if f.dbg is None:
                continue
            d = self.mdget(f.dbg)
            f.file = self.mdget(d['file'])['filename'].strip('"') if 'file' in d else '?'
            f.line = int(d.get('line', '0'))
            st = self.mdget(d['type'])
            tl = self.mdget(st['types'])['items']
            f.ptypes = [self.pointee(x) for x in tl[1:]]

    def pointee(self, ref):
        """metadata type ref -> name of struct pointed to, or None"""
        if ref is None or ref == 'null':
            return None
        if ref in self._cty:
            return self._cty[ref]
        r = None
        d = self.mdget(ref)
        k = 0
        while d and k < 20:
            if d['_'] == 'DIDerivedType' and d.get('tag') == 'DW_TAG_pointer_type':
                b = self.mdget(d['baseType']) if 'baseType' in d and d['baseType'] != 'null' else None
                r = self._sname(b)
                break
            if d['_'] == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type') and 'baseType' in d:
                d = self.mdget(d['baseType'])
                k += 1
                continue
            break
        self._cty[ref] = r
        return r

    def ispointer(self, ref):
        d = self.mdget(ref) if ref and ref != 'null' else None
        k = 0
        while d and k < 20:
            if d['_'] != 'DIDerivedType':
                return False
            if d.get('tag') == 'DW_TAG_pointer_type':
                return True
            d = self.mdget(d['baseType']) if 'baseType' in d else None
            k += 1
        return False

    def _sname(self, b):
        k = 0
        while b and k < 20:
            if b['_'] == 'DICompositeType' and b.get('tag') == 'DW_TAG_structure_type':
                nm = b.get('name', '').strip('"') or b.get('_tdname')
                if not nm:
                    # anonymous struct: find typedef
                    nm = b.get('_tdname')
                return nm
            if b['_'] == 'DIDerivedType' and b.get('tag') == 'DW_TAG_typedef' and 'baseType' in b:
                nm = b['name'].strip('"')
                if nm in self.fields:
                    return nm
                b = self.mdget(b['baseType'])
            elif b['_'] == 'DIDerivedType' and b.get('tag') in ('DW_TAG_const_type', 'DW_TAG_volatile_type') and 'baseType' in b:
                b = self.mdget(b['baseType'])
            else:
                return None
            k += 1
        return None

    def field_at(self, sname, off):
        """-> (field name, size, pointee struct or None)"""
        fl = self.fields.get(sname)
        if not fl or off not in fl:
            return None
        nm, sz, bt = fl[off]
        return nm, sz, self.pointee(bt)


# ------------------------------------------------------------------ CFG utils
def loops_of(fn):
    """natural loops: header -> set of blocks (by DFS back edges / dominators)"""
    dom = dominators(fn)
    loops = {}
    for b in fn.blocks:
        if b not in dom:
            continue
        for s in b.succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in body:
                        continue
                    body.add(x)
                    stack.extend(p for p in x.preds if p in dom)
    return loops, dom


def dominators(fn):
    order = rpo(fn)
    idx = {b: i for i, b in enumerate(order)}
    idom = {fn.entry: fn.entry}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True
    dom = {}
    for b in order:
        s = {b}
        x = b
        while idom[x] is not x:
            x = idom[x]
            s.add(x)
        dom[b] = s
    return dom


def rpo(fn, succs=lambda b: b.succs):
    seen, out = set(), []
    stack = [(fn.entry, iter(succs(fn.entry)))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(s))))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out
