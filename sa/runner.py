"""Runs the checks of one property over the configured builds and reports."""
import json, os, sys, time, resource, multiprocessing as mp, traceback
from multiprocessing import connection
from . import front, expr as X
from .engine import Engine, EngineError, Rule
from .base import Broken, ANCHORS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Finding:
    def __init__(self, loc, srcfn, entry, key, msg, path, flavour):
        self.loc, self.srcfn, self.entry, self.key, self.msg, self.path, self.flavour = loc, srcfn, entry, key, msg, path, flavour

    def ident(self):
        return '%s|%s' % (self.srcfn, self.key)


class Result:
    """what one job analysed and found"""

    def __init__(self, name):
        self.name = name
        self.flavour = ''
        self.findings = []
        self.counts = {}
        self.samples = []
        self.functions = 0
        self.states = 0
        self.broken = None


class EngineJob:
    """a dataflow rule over one API entry point"""

    def __init__(self, rule, entry, noinline=None, flavours=None, cap=None):
        self.rule, self.entry, self.noinline = rule, entry, tuple(noinline if noinline is not None else getattr(rule, 'NOINLINE', ANCHORS))
        self.flavours = flavours
        self.name = '%s(%s)' % (rule.name, getattr(entry, 'label', entry))
        self.cap = cap

    def modkey(self):
        return self.noinline, True

    def run(self, m, flavour):
        r = Result(self.name)
        rule = self.rule()
        entry = self.entry(m) if callable(self.entry) else self.entry
        if entry not in m.funcs:
            raise Broken('function %s not found' % entry)
        e = Engine(m, entry, rule)
        try:
            e.run()
        except EngineError:
            if not rule.viol:
                raise
        finish = getattr(rule, 'finish', None)
        if finish and not rule.viol:
            finish(e)
        r.functions = 1
        r.states = e.steps
        for k, v in rule.counts.items():
            r.counts[k] = len(v)
            for fn, iid in sorted((x for x in v if isinstance(x, tuple)), key=str)[:1]:
                inst = e.m.instat(fn, iid)
                if inst is not None:
                    r.samples.append('%s: %s at %s (%s)' % (self.name, k, e.m.locstr(inst), e.m.srcfunc(inst)))
        for v in rule.viol:
            r.findings.append(Finding(v.loc, v.srcfn, v.entry, v.key, v.msg, v.path, flavour))
        return r


class Reporter:
    """passed to plain checks"""

    def __init__(self, m, flavour, name):
        self.m, self.flavour = m, flavour
        self.r = Result(name)
        self._seen = {}

    def count(self, what, inst=None):
        s = self._seen.setdefault(what, set())
        k = inst if not hasattr(inst, 'id') else (inst.fn.name, inst.id)
        if k is None:
            k = len(s)
        s.add(k)
        self.r.counts[what] = len(s)
        if inst is not None and hasattr(inst, 'fn') and len(s) == 1:
            self.r.samples.append('%s: %s at %s (%s)' % (self.r.name, what, self.m.locstr(inst), self.m.srcfunc(inst)))

    def sample(self, s):
        if len(self.r.samples) < 6:
            self.r.samples.append(s)

    def bad(self, inst, key, msg, loc=None, fn=None, path=()):
        if inst is not None:
            loc, fn = self.m.locstr(inst), self.m.srcfunc(inst)
        f = Finding(loc or '?', fn or '?', fn or '?', key, msg, list(path), self.flavour)
        if not any(g.loc == f.loc and g.key == f.key for g in self.r.findings):
            self.r.findings.append(f)

    def add_engine(self, e, rule):
        self.r.functions += 1
        self.r.states += e.steps
        for k, v in rule.counts.items():
            s = self._seen.setdefault(k, set())
            s |= v
            self.r.counts[k] = len(s)
        for v in rule.viol:
            f = Finding(v.loc, v.srcfn, v.entry, v.key, v.msg, v.path, self.flavour)
            self.r.findings.append(f)


class PlainJob:
    """a check over a whole module: fn(m, rep)"""

    def __init__(self, fn, name, noinline=(), inline=False, flavours=None):
        self.fn, self.name, self.noinline, self.inline, self.flavours = fn, name, tuple(noinline), inline, flavours

    def modkey(self):
        return self.noinline, self.inline

    def run(self, m, flavour):
        rep = Reporter(m, flavour, self.name)
        self.fn(m, rep)
        return rep.r


class Prop:
    def __init__(self, pid, jobs, what, minimum=None, flavours=None, technique=None, also=None):
        self.also = also or {}      # minimum for builds other than the default ones
        self.pid, self.jobs, self.what, self.minimum, self.flavours = pid, jobs, what, minimum or {}, flavours
        self.technique = technique


_mods = {}
MEMORY = 3500 << 20


def _load(a):
    fl, ni, inl = a
    try:
        return a, front.load(fl, ni, inl)
    except front.AnalysisBroken as e:
        return a, e


def _work(a):
    job, fl, key = a
    m = _mods[(fl,) + key]
    sys.setrecursionlimit(20000)
    X.set_module(m)
    try:
        r = job.run(m, fl)
    except (Broken, EngineError) as e:
        r = Result(job.name)
        r.broken = '%s: %s' % (type(e).__name__, e)
    except Exception:
        r = Result(job.name)
        r.broken = traceback.format_exc()
    r.flavour = fl
    return r


def _child(task, conn):
    # a task that outgrows its memory fails by itself instead of taking the machine with it
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        r = _work(task)
    except MemoryError:
        r = Result(task[0].name)
        r.broken, r.flavour = 'out of memory', task[1]
    conn.send(r)
    conn.close()


def _parallel(ctx, tasks, n):
    """one process per task, n at a time; a process that dies leaves a broken result"""
    res, live, todo = [None] * len(tasks), {}, list(range(len(tasks)))[::-1]
    while todo or live:
        while todo and len(live) < n:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(tasks[i], b), daemon=True)
            p.start()
            b.close()
            live[a] = i, p
        for a in connection.wait(list(live)):
            i, p = live.pop(a)
            try:
                res[i] = a.recv()
            except Exception:
                r = Result(tasks[i][0].name)
                r.broken, r.flavour = 'the analysis ended without a result', tasks[i][1]
                res[i] = r
            a.close()
            p.join()
    return res


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                # known: property=P00 id=<function|key> -- text
                head, _, text = l.partition(' -- ')
                out[head.split(' id=', 1)[1].strip()] = text
    return out


def run(prop, tier='quick', out=sys.stdout, evidence=True):
    t0 = time.time()
    tasks = []
    need = []
    default = prop.flavours or (['src', 'dist+errors'] if tier == 'quick' else front.ENGINE_FLAVOURS)
    if os.environ.get('EDB_FLAVOURS'):          # development: tools/mut.py
        default = os.environ['EDB_FLAVOURS'].split(',')
        evidence = False
    for j in prop.jobs:
        for fl in (j.flavours or default):
            k = j.modkey()
            tasks.append((j, fl, k))
            if (fl,) + k not in need:
                need.append((fl,) + k)
    ctx = mp.get_context('fork')
    n = int(os.environ.get('EDB_JOBS') or min(8, os.cpu_count() or 4))
    broken = []
    missing = [a for a in need if a not in _mods]
    for a in missing:
        pass
    if len(missing) > 1:
        front.prefetch(missing, n)
    for a in missing:
        a, m = _load(a)
        if isinstance(m, Exception):
            print('ANALYSIS-BROKEN property=%s %s' % (prop.pid, m), file=out)
            return 2
        _mods[a] = m
    # long jobs first
    order = {'embedDBInit': 0, 'embedDBPutVar': 1, 'embedDBPut': 2}
    tasks.sort(key=lambda t: order.get(getattr(t[0], 'entry', ''), 3))
    res = _parallel(ctx, tasks, n)
    kn = known(prop.pid)
    seen_known = {}
    viol = {}
    tot = {}
    per = {}
    states = 0
    samples = []
    entries = set()
    for r in res:
        if r.broken:
            broken.append('%s on %s: %s' % (r.name, r.flavour, r.broken))
        states += r.states
        entries.add((r.name, r.flavour))
        for k, v in r.counts.items():
            tot[k] = tot.get(k, 0) + v
            per.setdefault(r.flavour, {}).setdefault(k, 0)
            per[r.flavour][k] += v
        for s in r.samples:
            if len(samples) < 12 and s not in samples:
                samples.append(s)
        for f in r.findings:
            i = f.ident()
            if i in kn:
                seen_known[i] = kn[i]
            else:
                viol.setdefault(i, []).append(f)
    for fl in {f for _, f in entries}:
        for k, v in (prop.minimum if fl in default else prop.also.get(fl, {})).items():
            got = per.get(fl, {}).get(k, 0)
            if got < v:
                broken.append('%s: only %d %s analysed on %s, expected at least %d' % (prop.pid, got, k, fl, v))
    wall = time.time() - t0
    evd = os.path.join(VERIF if evidence else '/tmp/edb-dev', 'evidence')
    os.makedirs(evd, exist_ok=True)
    nobl = sum(tot.values())
    ev = {
        'property': prop.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'wall_s': round(wall, 2),
        'coverage': {
            'explanation': prop.what,
            'builds': sorted({f for _, f in entries}),
            'jobs': sorted({n for n, _ in entries}),
            'analyses': len(res),
            'abstract_steps': states,
            'instances': tot,
            'violations': len(viol),
            'known_findings': len(seen_known),
            'samples': samples,
        },
    }
    if evidence:
        with open(os.path.join(evd, prop.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
    print('%s: %d analyses over %s, %d abstract steps, instances %s, %.1f s'
          % (prop.pid, len(res), ', '.join(sorted({f for _, f in entries})), states, tot, wall), file=out)
    for i, t in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s %s' % (prop.pid, i, t), file=out)
    if viol:
        rp = os.path.join(evd, 'replay')
        os.makedirs(rp, exist_ok=True)
        for n, (i, fs) in enumerate(sorted(viol.items())):
            path = os.path.join(rp, '%s-%d.txt' % (prop.pid, n))
            with open(path, 'w') as fh:
                for f in fs:
                    fh.write('%s: %s\n  rule instance: %s\n  function: %s, analysed from: %s, build: %s\n'
                             % (f.loc, f.msg, f.key, f.srcfn, f.entry, f.flavour))
                    for p in f.path:
                        fh.write('    %s\n' % p)
            f = fs[0]
            print('%s: [%s] %s (%s)' % (f.loc, f.key, f.msg, '/'.join(sorted({g.flavour for g in fs}))), file=out)
            print('VIOLATION property=%s replay=%s' % (prop.pid, path), file=out)
        for b in broken:
            print('note: %s' % b, file=out)
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s %s' % (prop.pid, b), file=out)
        return 2
    return 0
