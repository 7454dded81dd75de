#!/usr/bin/env python3
"""Scratch mutation testing of the checks: mut.py [-p P27] [-n name] [-j 8] [files of tools/mutants]

A file of tools/mutants holds entries

    ## name : P27 [P28 ...] : bad|ok : path
    <<<<
    old text
    ====
    new text
    >>>>            (more <<<< blocks may follow)

`bad` must be reported by each property named, `ok` by none.  Each entry is applied to a scratch copy of /repo's sources."""
import os, re, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HEAD = re.compile(r'^## *(\S+) *: *([^:]+?) *: *(bad|ok) *: *(\S+) *$', re.M)
BLOCK = re.compile(r'^<<<<\n(.*?)^====\n(.*?)^>>>>', re.M | re.S)


def entries(path):
    t = open(path).read()
    hs = list(HEAD.finditer(t))
    for i, h in enumerate(hs):
        body = t[h.end():hs[i + 1].start() if i + 1 < len(hs) else len(t)]
        yield h.group(1), h.group(2).split(), h.group(3), h.group(4), [(a[:-1], b[:-1]) for a, b in BLOCK.findall(body)]


def one(e):
    name, props, kind, path, edits = e
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        for d in ('src', 'lib/EmbedDB-Utility', 'lib/Desktop-File-Interface', 'lib/SD-File-Interface', 'lib/SD-Wrapper',
                  'lib/Dataflash-File-Interface', 'lib/Dataflash-Wrapper', 'lib/Distribution'):
            if os.path.exists(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d))
        f = os.path.join(tmp, path)
        s = open(f).read()
        for old, new in edits:
            if s.count(old) != 1:
                return name, kind, 'STALE (%d matches)' % s.count(old), ''
            s = s.replace(old, new)
        open(f, 'w').write(s)
        fl = 'src' if path.startswith('src') or 'Utility' in path else ''
        env = dict(os.environ, EDB_REPO=tmp, EDB_JOBS='2')
        if fl:
            env['EDB_FLAVOURS'] = fl
        else:
            env['EDB_NOEVIDENCE'] = '1'
        out = ''
        res = []
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out += r.stdout
            res.append(r.returncode)
        if kind == 'bad':
            v = 'caught' if all(c == 1 for c in res) else 'MISSED ' + ' '.join('%s=%d' % (p, c) for p, c in zip(props, res) if c != 1)
        else:
            v = 'quiet' if all(c == 0 for c in res) else 'ALARM ' + ' '.join('%s=%d' % (p, c) for p, c in zip(props, res) if c != 0)
        return name, kind, v, out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    a = sys.argv[1:]
    prop = nm = None
    j = 4
    files = []
    verbose = '-v' in a
    while a:
        x = a.pop(0)
        if x == '-p':
            prop = a.pop(0)
        elif x == '-n':
            nm = a.pop(0)
        elif x == '-j':
            j = int(a.pop(0))
        elif x != '-v':
            files.append(x)
    d = os.path.join(V, 'tools', 'mutants')
    files = files or [os.path.join(d, f) for f in sorted(os.listdir(d))]
    es = [e for f in files for e in entries(f)]
    if prop:
        es = [e[:1] + ([prop],) + e[2:] for e in es if prop in e[1]]
    if nm:
        es = [e for e in es if re.search(nm, e[0])]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for name, kind, v, out in ex.map(one, es):
            odd = v not in ('caught', 'quiet')
            bad += odd
            print('%-40s %-4s %s' % (name, kind, v), flush=True)
            if odd or verbose:
                for l in out.splitlines():
                    if 'VIOLATION' not in l and ' analyses over ' not in l or verbose:
                        print('        ' + l[:300])
    print('%d entries, %d unexpected' % (len(es), bad))
    sys.exit(1 if bad else 0)
