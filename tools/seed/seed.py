#!/usr/bin/env python3
"""Make and verify planted bugs.  seed.py verify [ids...]; used as a module: make(...)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
H = os.path.dirname(os.path.abspath(__file__))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def clean():
    sh(['git', '-C', R, 'checkout', '--', '.'])


def make(id, prop, edits, needs, breaks, demo, demo_sh=None, extra=None):
    d = os.path.join(V, 'seeded', id)
    assert sh(['git', '-C', R, 'status', '--porcelain']).stdout == '', 'dirty /repo'
    try:
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh(['git', '-C', R, 'diff']).stdout
    finally:
        clean()
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.c'), 'w').write(demo)
    if demo_sh:
        open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh)
    else:
        shutil.copy(os.path.join(H, 'demo.sh'), d)
    if 'memdb.h' in demo:
        shutil.copy(os.path.join(H, 'memdb.h'), d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(id):
    r = sh(['bash', os.path.join(V, 'seeded', id, 'demo.sh')], cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def verify(id, check=True):
    d = os.path.join(V, 'seeded', id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert sh(['git', '-C', R, 'status', '--porcelain']).stdout == ''
    out = [id, meta['property']]
    rc, o = demo(id)
    out.append('clean demo %s' % ('ok' if rc == 0 else 'BAD %d %s' % (rc, o)))
    # does it touch lines of the original?
    r = sh(['git', '-C', R, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        print(id, 'patch does not apply', r.stderr)
        return False
    try:
        sh('bash /opt/vp/test.sh /tmp/seed.out.json')
        got = set(json.load(open('/tmp/seed.out.json'))['passed'])
        out.append('tests ok' if base <= got else 'TESTS FAIL %s' % sorted(base - got)[:3])
        rc, o = demo(id)
        out.append('demo fails' if rc not in (0, 3) else 'DEMO rc %d %s' % (rc, o))
        out.append(str(o)[:90])
        if check:
            r = sh(['python3', os.path.join(V, 'check.py'), meta['property']])
            v = [l for l in r.stdout.splitlines() if l.startswith(('src/', 'lib/', '/'))] or r.stdout.splitlines()[-2:]
            out.append('CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in r.stdout else 'MISSED rc %d' % r.returncode)
            out.append(v[0][:150] if v else '')
    finally:
        clean()
    print(' | '.join(out), flush=True)
    return True


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        verify(i, sys.argv[1] == 'verify')
    sh('bash /opt/vp/build.sh')
