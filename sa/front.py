"""Front end: /repo's working tree -> parsed LLVM IR modules, per flavour.

A flavour is (source set, -DPRINT_ERRORS or not).  Everything is compiled from
/repo's current files into a temporary directory on every run."""
import os, re, subprocess, tempfile, shutil, hashlib
from . import ir

REPO = os.environ.get('EDB_REPO', '/repo')

SRC_UNITS = ['src/embedDB/embedDB.c', 'src/spline/spline.c', 'src/query-interface/advancedQueries.c',
             'src/query-interface/schema.c', 'lib/EmbedDB-Utility/embedDBUtility.c']
SRC_INC = ['.', 'src', 'lib/EmbedDB-Utility', 'lib/Desktop-File-Interface']
DIST_UNITS = ['lib/Distribution/embedDB.c']
DIST_INC = ['.', 'lib/EmbedDB-Utility', 'lib/Desktop-File-Interface', 'lib/Distribution']
DESK_UNITS = ['lib/Desktop-File-Interface/desktopFileInterface.c']
SD_UNITS = ['lib/SD-File-Interface/SDFileInterface.c']
SD_INC = ['src', 'src/embedDB', 'src/spline', 'lib/SD-File-Interface', 'lib/SD-Wrapper', 'lib/Serial-Wrapper']
DF_UNITS = ['lib/Dataflash-File-Interface/dataflashFileInterface.c']
DF_INC = ['src', 'src/embedDB', 'src/spline', 'lib/Dataflash-File-Interface', 'lib/Dataflash-Wrapper']

FLAVOURS = {
    'src': (SRC_UNITS, SRC_INC, []),
    'src+errors': (SRC_UNITS, SRC_INC, ['-DPRINT_ERRORS']),
    'dist': (DIST_UNITS, DIST_INC, ['-DDIST']),
    'dist+errors': (DIST_UNITS, DIST_INC, ['-DPRINT_ERRORS']),
    'desktop': (DESK_UNITS, SRC_INC, []),
    'desktop+errors': (DESK_UNITS, SRC_INC, ['-DPRINT_ERRORS']),
    'sd': (SD_UNITS, SD_INC, ['-DARDUINO=10800', '-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')]),
    'dataflash': (DF_UNITS, DF_INC, []),
}
ENGINE_FLAVOURS = ['src', 'src+errors', 'dist', 'dist+errors']


class AnalysisBroken(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken('%s failed:\n%s' % (' '.join(cmd[:6]), p.stderr[-3000:]))
    return p.stdout


def link_ir(flavour, tmp, extra=()):
    units, inc, defs = FLAVOURS[flavour]
    outs = []
    for u in units:
        src = os.path.join(REPO, u)
        if not os.path.exists(src):
            raise AnalysisBroken('source unit %s is gone' % u)
        o = os.path.join(tmp, flavour.replace('+', '_') + '_' + u.replace('/', '_') + '.bc')
        cmd = ['clang', '-std=gnu11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-g',
               '-fno-discard-value-names', '-w', '-emit-llvm', '-c', src, '-o', o] + defs + list(extra)
        for i in inc:
            cmd += ['-I', os.path.join(REPO, i)]
        run(cmd, cwd=REPO)
        outs.append(o)
    linked = os.path.join(tmp, flavour.replace('+', '_') + '.bc')
    run(['llvm-link', '-o', linked] + outs)
    return linked


_cache = {}
_text = {}


def prefetch(keys, n=8):
    """compile several builds in parallel; load() then only parses"""
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        try:
            _text[(k[0], tuple(sorted(k[1])), k[2])] = compile_ir(*k)
        except AnalysisBroken as e:
            _text[(k[0], tuple(sorted(k[1])), k[2])] = e
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, keys))


def load(flavour, noinline=(), inline=True):
    """-> ir.Module with everything but `noinline` inlined"""
    key = (flavour, tuple(sorted(noinline)), inline)
    if key in _cache:
        return _cache[key]
    t = _text.pop(key, None)
    if t is None:
        t = compile_ir(flavour, noinline, inline)
    if isinstance(t, Exception):
        raise t
    m = _cache[key] = ir.Module(t, flavour)
    return m


UNSET = '@unset'       # as a name in `noinline`: give every scalar local an explicit "no value" when its lifetime starts


def mark_unset(bc, tmp):
    """promotion to registers may pick any value for a variable that is not set on some path (and picks the one of the other path);
    a call of an unknown function in its place keeps the path apart"""
    out = os.path.join(tmp, 'unset.ll')
    res, kinds, n = [], {}, 0
    decls = set()

    def mark(var):
        nonlocal n
        t = kinds[var]
        n += 1
        decls.add(t)
        res.append('  %%unset.%d = call %s @unset.%s()' % (n, t, t))
        res.append('  store %s %%unset.%d, ptr %s' % (t, n, var))

    for l in dis(bc, tmp):
        if l.startswith('define '):
            kinds = {}
        m = re.match(r'\s+(%\S+) = alloca (i8|i16|i32|i64|float|double|ptr), align', l)
        if m:
            kinds[m.group(1)] = m.group(2)
            res.append(l)
            mark(m.group(1))
            continue
        res.append(l)
        m = re.match(r'\s+call void @llvm\.lifetime\.start\.p0\(i64 \d+, ptr (%\S+)\)', l)
        if m and m.group(1) in kinds:
            mark(m.group(1))
    for t in sorted(decls):
        res.append('declare %s @unset.%s()' % (t, t))
    with open(out, 'w') as f:
        f.write('\n'.join(res) + '\n')
    return out


def dis(bc, tmp):
    o = os.path.join(tmp, 'plain.ll')
    run(['llvm-dis', bc, '-o', o])
    with open(o) as f:
        return f.read().splitlines()


def compile_ir(flavour, noinline=(), inline=True):
    tmp = tempfile.mkdtemp(prefix='edbsa_')
    try:
        bc = link_ir(flavour, tmp)
        out = os.path.join(tmp, 'out.ll')
        unset = UNSET in noinline
        if unset:
            bc = mark_unset(bc, tmp)
            noinline = [n for n in noinline if n != UNSET]
        cmd = ['opt', '-S', bc, '-o', out]
        if inline:
            fa = ['-force-attribute=%s:noinline' % f for f in noinline]
            big = '100000000'
            cmd += ['-passes=forceattrs,function(sroa),cgscc(inline),function(sroa)', '-inline-threshold=' + big,
                    '-inlinehint-threshold=' + big, '-inlinecold-threshold=' + big,
                    '-inline-cold-callsite-threshold=' + big] + fa
        else:
            cmd += ['-passes=function(sroa)']
        run(cmd)
        with open(out) as f:
            t = f.read()
        if unset:
            t = re.sub(r'(?m)^\s+%unset\.\S+ = call .*\n', '', t)
            t = re.sub(r'%unset\.[\w.]+', 'undef', t)
        return t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
